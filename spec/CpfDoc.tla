------------------------------- MODULE CpfDoc -------------------------------
\* A laser prediction file as a sequence of lines, and what it says in each reading mode.  A strict
\* reader refuses at the first bad record; a permissive one loses that record and nothing else.
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLines, Times, Bads, Others
VARIABLES doc, h, entries, strict, ended
vars == <<doc, h, entries, strict, ended>>
Init == doc = <<>> /\ h = <<0, 0>> /\ entries = <<>> /\ strict = TRUE /\ ended = FALSE
Add(l) == doc' = Append(doc, l)
H1(k) == h[1] = 0 /\ Add(<<"H1", k>>) /\ h' = [h EXCEPT ![1] = k] /\ UNCHANGED <<entries, strict, ended>>
H2(k) == h[2] = 0 /\ Add(<<"H2", k>>) /\ h' = [h EXCEPT ![2] = k] /\ UNCHANGED <<entries, strict, ended>>
Record(t) == Add(<<"10", t>>) /\ entries' = Append(entries, <<t, Len(doc) + 1>>) /\ UNCHANGED <<h, strict, ended>>
Bad(b) == Add(<<"bad", b>>) /\ strict' = FALSE /\ UNCHANGED <<h, entries, ended>>
Other(o) == Add(<<"other", o>>) /\ UNCHANGED <<h, entries, strict, ended>>
End == Add(<<"99", 0>>) /\ ended' = TRUE /\ UNCHANGED <<h, entries, strict>>
\* nothing after the end is read
After == ended /\ doc[Len(doc)][1] = "99" /\ Add(<<"bad", "mjd">>) /\ UNCHANGED <<h, entries, strict, ended>>
Next == /\ Len(doc) < MaxLines
        /\ \/ /\ ~ended
              /\ \/ \E k \in {1, 2} : H1(k) \/ H2(k)
                 \/ \E t \in Times : Record(t)
                 \/ \E b \in Bads : Bad(b)
                 \/ \E o \in Others : Other(o)
                 \/ End
           \/ After
Spec == Init /\ [][Next]_vars
Kept == [][SubSeq(entries', 1, Len(entries)) = entries]_vars
Emit == PrintT("SCN " \o ToJson([doc |-> doc, h |-> h, entries |-> entries, strict |-> strict]))
=============================================================================

------------------------------ MODULE OrbexDoc ------------------------------
\* An orbit exchange file as a sequence of lines, and what it says in each reading mode.  Records
\* belong to the section and the epoch in force where they stand; an epoch that cannot be read
\* leaves the records after it without a date, until the next one.
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLines, Epochs, BadEpochs, Bads, Others
VARIABLES doc, sec, ep, recs, strict, ended
vars == <<doc, sec, ep, recs, strict, ended>>
Init == doc = <<>> /\ sec = "none" /\ ep = 0 /\ recs = <<>> /\ strict = TRUE /\ ended = FALSE
Add(l) == doc' = Append(doc, l)
Section(s) == Add(<<"sec", s>>) /\ sec' = s /\ UNCHANGED <<ep, recs, strict, ended>>
Epoch(e) == Add(<<"ep", e>>) /\ ep' = e /\ UNCHANGED <<sec, recs, strict, ended>>
BadEpoch(b) == Add(<<"badep", b>>) /\ ep' = 0 /\ strict' = FALSE /\ UNCHANGED <<sec, recs, ended>>
Record(vel) == /\ Add(<<"rec", vel>>) /\ UNCHANGED <<sec, ep, ended>>
               /\ IF sec = "none" THEN UNCHANGED <<recs, strict>>
                  ELSE IF ep = 0 THEN strict' = FALSE /\ recs' = recs
                  ELSE recs' = Append(recs, [sec |-> sec, ep |-> ep, n |-> Len(doc) + 1, vel |-> vel = "vel" /\ sec = "ORB"]) /\ strict' = strict
Bad(b) == Add(<<"bad", b>>) /\ strict' = (strict /\ sec = "none") /\ UNCHANGED <<sec, ep, recs, ended>>
Other(o) == Add(<<"other", o>>) /\ sec' = (IF o = "#XYZ" THEN "none" ELSE sec) /\ UNCHANGED <<ep, recs, strict, ended>>
End == Add(<<"end", 0>>) /\ ended' = TRUE /\ UNCHANGED <<sec, ep, recs, strict>>
After == ended /\ doc[Len(doc)][1] = "end" /\ Add(<<"bad", "word">>) /\ UNCHANGED <<sec, ep, recs, strict, ended>>
Next == /\ Len(doc) < MaxLines
        /\ \/ /\ ~ended
              /\ \/ \E s \in {"ORB", "CLK", "ATT"} : Section(s)
                 \/ \E e \in Epochs : Epoch(e)
                 \/ \E b \in BadEpochs : BadEpoch(b)
                 \/ \E v \in {"vel", "plain"} : Record(v)
                 \/ \E b \in Bads : Bad(b)
                 \/ \E o \in Others : Other(o)
                 \/ End
           \/ After
Spec == Init /\ [][Next]_vars
Kept == [][SubSeq(recs', 1, Len(recs)) = recs]_vars
Dated == \A i \in DOMAIN recs : recs[i].ep # 0 /\ recs[i].sec # "none"
Emit == PrintT("SCN " \o ToJson([doc |-> doc, recs |-> recs, strict |-> strict]))
=============================================================================

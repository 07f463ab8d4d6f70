------------------------------- MODULE ObsDoc -------------------------------
\* A RINEX observation file: its header fields, and the epochs with the satellites seen and the
\* values given for each, by the observation types of its system.  Event records are no epochs.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLines, Times, Bads, Others, Systems
\* a row of a satellite leaves out some of the values: the first, the last, all, every other one, or the end of the line
Masks == {"all", "first", "last", "none", "odd"}
VARIABLES head, doc, epochs, ok
vars == <<head, doc, epochs, ok>>
Init == /\ head \in [marker : BOOLEAN, approx : BOOLEAN, interval : BOOLEAN, g : {1, 13, 14, 27}]
        /\ (head.marker = head.approx)
        /\ doc = <<>> /\ epochs = <<>> /\ ok = TRUE
Add(x) == doc' = Append(doc, x) /\ head' = head
Epoch(t) == Add(<<"ep", t, "">>) /\ epochs' = Append(epochs, [t |-> t, sats |-> <<>>]) /\ ok' = ok
Row(s, m) == /\ doc # <<>> /\ doc[Len(doc)][1] \in {"ep", "row"}
             /\ Add(<<"row", s, m>>) /\ epochs' = [epochs EXCEPT ![Len(epochs)].sats = Append(@, <<s, m, Len(doc) + 1>>)] /\ ok' = ok
Other(o) == Add(<<"other", o, "">>) /\ UNCHANGED <<epochs, ok>>
Bad(b) == Add(<<"bad", b, "">>) /\ ok' = FALSE /\ UNCHANGED epochs
Next == /\ ok /\ Len(doc) < MaxLines
        /\ \/ \E t \in Times : Epoch(t)
           \/ \E s \in Systems, m \in Masks : Row(s, m)
           \/ \E o \in Others : Other(o)
           \/ \E b \in Bads : Bad(b)
Spec == Init /\ [][Next]_vars
Kept == [][\A i \in 1 .. Len(epochs) - 1 : epochs'[i] = epochs[i]]_vars
Emit == PrintT("SCN " \o ToJson([head |-> head, doc |-> doc, epochs |-> epochs, ok |-> ok]))
=============================================================================

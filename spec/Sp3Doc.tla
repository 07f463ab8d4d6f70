------------------------------- MODULE Sp3Doc -------------------------------
\* A precise ephemeris file as a sequence of lines, and what it says: the header lines in order,
\* and the epochs, each with its satellites in order.  Reading the whole file and reading it epoch
\* by epoch agree: the streaming reader hands out every epoch that ends before the first bad line.
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLines, Epochs, BadEpochs, Sats, BadSats, Others
VARIABLES doc, head, epochs, where, bad
vars == <<doc, head, epochs, where, bad>>
Init == doc = <<>> /\ head = <<>> /\ epochs = <<>> /\ where = "header" /\ bad = FALSE
Add(l) == doc' = Append(doc, l)
Header(h) == where = "header" /\ Add([l |-> "head", k |-> h]) /\ head' = Append(head, Len(doc) + 1) /\ UNCHANGED <<epochs, where, bad>>
Epoch(e) == where # "end" /\ Add([l |-> "epoch", k |-> e]) /\ epochs' = Append(epochs, [e |-> e, sats |-> <<>>]) /\ where' = "body" /\ UNCHANGED <<head, bad>>
\* a header never holds a satellite: before the first epoch the line is one of the header's
Sat(s) == /\ where = "body" /\ Add([l |-> "sat", k |-> s])
          /\ epochs' = [epochs EXCEPT ![Len(epochs)].sats = Append(@, <<s, Len(doc) + 1>>)] /\ UNCHANGED <<head, where, bad>>
Other(o) == where = "body" /\ Add([l |-> "other", k |-> o]) /\ UNCHANGED <<head, epochs, where, bad>>
End == Add([l |-> "eof", k |-> 0]) /\ where' = "end" /\ UNCHANGED <<head, epochs, bad>>
\* after the end nothing is read, whatever it is
After(b) == where = "end" /\ doc[Len(doc)].l = "eof" /\ Add([l |-> "badepoch", k |-> b]) /\ UNCHANGED <<head, epochs, where, bad>>
BadEpoch(b) == where # "end" /\ Add([l |-> "badepoch", k |-> b]) /\ bad' = TRUE /\ where' = "stop" /\ UNCHANGED <<head, epochs>>
BadSat(b) == /\ where = "body" /\ Add([l |-> "badsat", k |-> b]) /\ bad' = TRUE /\ where' = "stop" /\ head' = head
             /\ epochs' = SubSeq(epochs, 1, Len(epochs) - 1)
Next == /\ where # "stop" /\ Len(doc) < MaxLines
        /\ \/ \E h \in {1, 2} : Header(h)
           \/ \E e \in Epochs : Epoch(e)
           \/ \E s \in Sats : Sat(s)
           \/ \E o \in Others : Other(o)
           \/ where # "end" /\ End
           \/ \E b \in BadEpochs : BadEpoch(b) \/ (b = "word" /\ After(b))
           \/ \E b \in BadSats : BadSat(b)
Spec == Init /\ [][Next]_vars
Kept == [][\A i \in 1 .. Len(epochs) - 1 : i \in DOMAIN epochs' /\ epochs'[i] = epochs[i]]_vars
Emit == PrintT("SCN " \o ToJson([doc |-> doc, head |-> head, epochs |-> epochs, bad |-> bad]))
=============================================================================

------------------------------ MODULE DorisDoc ------------------------------
\* A DORIS measurement file as a sequence of lines: each measurement line belongs to the epoch and
\* the beacon in force; lines that belong to none are only counted.
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLines, Epochs, BadEpochs
VARIABLES doc, ep, sat, obs, lost
vars == <<doc, ep, sat, obs, lost>>
Init == doc = <<>> /\ ep = 0 /\ sat = 0 /\ obs = <<>> /\ lost = 0
Add(l, k) == doc' = Append(doc, <<l, k>>)
Take(s, n) == IF ep = 0 \/ s = 0 THEN obs' = obs /\ lost' = lost + 1
              ELSE obs' = Append(obs, <<ep, s, n>>) /\ lost' = lost + (IF n = 0 THEN 1 ELSE 0)
Epoch(e) == Add("ep", e) /\ ep' = e /\ sat' = 0 /\ UNCHANGED <<obs, lost>>
BadEpoch(b) == Add("bad", b) /\ ep' = 0 /\ sat' = 0 /\ UNCHANGED <<obs, lost>>
Beacon(s) == Add("sat", s) /\ sat' = s /\ ep' = ep /\ Take(s, Len(doc) + 1)
Empty(s) == Add("empty", s) /\ sat' = s /\ ep' = ep /\ Take(s, 0)
More == Add("more", 0) /\ UNCHANGED <<ep, sat>> /\ Take(sat, Len(doc) + 1)
Blank == Add("blank", 0) /\ UNCHANGED <<ep, sat, obs, lost>>
Next == /\ Len(doc) < MaxLines
        /\ \/ \E e \in Epochs : Epoch(e)
           \/ \E b \in BadEpochs : BadEpoch(b)
           \/ \E s \in {1, 2} : Beacon(s)
           \/ Empty(1) \/ More \/ Blank
Spec == Init /\ [][Next]_vars
Kept == [][SubSeq(obs', 1, Len(obs)) = obs /\ lost' >= lost]_vars
Emit == PrintT("SCN " \o ToJson([doc |-> doc, obs |-> obs, lost |-> lost]))
=============================================================================

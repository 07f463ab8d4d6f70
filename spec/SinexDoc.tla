------------------------------ MODULE SinexDoc ------------------------------
\* A station coordinate solution as a sequence of lines: the estimates that stand in the estimate
\* block.  A station is one point of one site in one solution; it exists once all three of its
\* coordinates are given, and has a velocity once all three components are.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLines, Keys, Epochs, Bads, Others
VARIABLES doc, block, pos, vel, ep, strict
vars == <<doc, block, pos, vel, ep, strict>>
None == [k \in Keys |-> <<0, 0, 0>>]
Init == doc = <<>> /\ block = "none" /\ pos = None /\ vel = None /\ ep = [k \in Keys |-> 0] /\ strict = TRUE
Add(l, k, c, e) == doc' = Append(doc, <<l, k, c, e>>)
Block(b) == Add("block", b, 0, 0) /\ block' = b /\ UNCHANGED <<pos, vel, ep, strict>>
Here == block = "estimate"
\* a component c of key k (0: all three, one line each), in the order of the lines
Set(f, k, c) == [f EXCEPT ![k] = IF c = 0 THEN <<Len(doc) + 1, Len(doc) + 1, Len(doc) + 1>> ELSE [@ EXCEPT ![c] = Len(doc) + 1]]
Sta(k, c, e) == Add("sta", k, c, e) /\ pos' = (IF Here THEN Set(pos, k, c) ELSE pos) /\ ep' = (IF Here THEN [ep EXCEPT ![k] = e] ELSE ep) /\ UNCHANGED <<block, vel, strict>>
Vel(k, c, e) == Add("vel", k, c, e) /\ vel' = (IF Here THEN Set(vel, k, c) ELSE vel) /\ ep' = (IF Here THEN [ep EXCEPT ![k] = e] ELSE ep) /\ UNCHANGED <<block, pos, strict>>
Bad(b) == Add("bad", b, 0, 0) /\ strict' = (strict /\ ~Here) /\ UNCHANGED <<block, pos, vel, ep>>
Other(o) == Add("other", o, 0, 0) /\ UNCHANGED <<block, pos, vel, ep, strict>>
Next == /\ Len(doc) < MaxLines
        /\ \/ \E b \in {"estimate", "site", "none"} : b # block /\ Block(b)
           \/ \E k \in Keys, c \in {0, 1}, e \in Epochs : Sta(k, c, e)
           \/ \E k \in Keys, c \in {0, 3} : Vel(k, c, 1)
           \/ \E b \in Bads : Bad(b)
           \/ \E o \in Others : Other(o)
Spec == Init /\ [][Next]_vars
Whole(t) == \A c \in 1 .. 3 : t[c] # 0
Stations == SelectSeq([k \in 1 .. Cardinality(Keys) |-> k], LAMBDA k : Whole(pos[k]))
Kept == [][\A k \in Keys : Whole(pos[k]) => Whole(pos'[k])]_vars
Emit == PrintT("SCN " \o ToJson([doc |-> doc, strict |-> strict,
          stations |-> [i \in DOMAIN Stations |-> LET k == Stations[i] IN [k |-> k, pos |-> pos[k], vel |-> IF Whole(vel[k]) THEN vel[k] ELSE <<0>>, ep |-> ep[k]]]]))
=============================================================================

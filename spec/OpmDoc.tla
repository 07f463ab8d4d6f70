------------------------------- MODULE OpmDoc -------------------------------
\* An orbit parameter message: which of its fields are there, and what the reader must make of it.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxFlaws, Order
Names == <<"OBJECT_NAME", "OBJECT_ID", "CENTER_NAME", "REF_FRAME", "TIME_SYSTEM", "EPOCH", "X", "Y", "Z", "X_DOT", "Y_DOT", "Z_DOT",
           "SEMI_MAJOR_AXIS", "ECCENTRICITY", "INCLINATION", "RA_OF_ASC_NODE", "ARG_OF_PERICENTER", "TRUE_ANOMALY">>
Numeric == 7 .. 18
Kepler == 13 .. 18
Required == {1} \cup 6 .. 12
VARIABLES flaws, order
Init == flaws = <<>> /\ order \in Order
Used == {flaws[i].f : i \in DOMAIN flaws}
Add == /\ Len(flaws) < MaxFlaws
       /\ \E f \in 1 .. 18, w \in {"missing", "word", "empty"} :
             /\ f \notin Used /\ (w # "missing" => f \in Numeric)
             /\ \A u \in Used : f > u
             /\ flaws' = Append(flaws, [f |-> f, w |-> w])
       /\ order' = order
NoKepler == flaws = <<>> /\ MaxFlaws >= 1 /\ flaws' = [i \in 1 .. 6 |-> [f |-> 12 + i, w |-> "missing"]] /\ order' = order
Next == Add \/ NoKepler
Spec == Init /\ [][Next]_<<flaws, order>>
Missing == {flaws[i].f : i \in {j \in DOMAIN flaws : flaws[j].w = "missing"}}
Broken == {flaws[i].f : i \in {j \in DOMAIN flaws : flaws[j].w # "missing"}}
HasKepler == 13 \notin Missing
Ok == /\ (Required \cap (Missing \cup Broken) = {})
      /\ (HasKepler => Kepler \cap (Missing \cup Broken) = {})
\* an unreadable number that is needed is never passed over
Never == \A f \in Broken \cap Required : ~Ok
Emit == PrintT("SCN " \o ToJson([flaws |-> [i \in DOMAIN flaws |-> <<Names[flaws[i].f], flaws[i].w>>], order |-> order, ok |-> Ok, kepler |-> HasKepler]))
=============================================================================

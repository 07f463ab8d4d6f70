----------------------------- MODULE NoisePlan -----------------------------
\* A process-noise plan made of consecutive segments: which segment is in force at an elapsed
\* time.  Segment i has the noise level i.
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Durations, MaxSegments, Elapsed
VARIABLES plan
Init == plan = <<>>
Next == Len(plan) < MaxSegments /\ \E x \in Durations : plan' = Append(plan, x)
Spec == Init /\ [][Next]_plan
RECURSIVE Before(_)
Before(i) == IF i = 0 THEN 0 ELSE Before(i - 1) + plan[i]
\* the first segment that has not ended yet; after the last one, the last one stays in force
Ending(t) == {i \in DOMAIN plan : t < Before(i)}
InForce(t) == IF plan = <<>> THEN 0 ELSE IF Ending(t) = {} THEN Len(plan)
              ELSE CHOOSE i \in Ending(t) : \A j \in Ending(t) : i <= j
Monotone == \A s, t \in Elapsed : s <= t => InForce(s) <= InForce(t)
Starts == \A i \in DOMAIN plan : plan[i] > 0 => InForce(Before(i - 1)) = i
Emit == PrintT("SCN " \o ToJson([plan |-> plan, at |-> [k \in 1 .. 31 |-> <<k - 1, InForce(k - 1)>>]]))
=============================================================================

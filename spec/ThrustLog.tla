----------------------------- MODULE ThrustLog -----------------------------
\* A spacecraft burning along thrust arcs.  Mass flow is k kg/s for an arc of strength k, so
\* the mass book-keeping is exact; the velocity gain of an arc follows from the masses before
\* and after it.  An arc that would use up the spacecraft, or is malformed, is refused and
\* changes nothing.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxArcs, Used
VARIABLES m0, mass, arcs, log
vars == <<m0, mass, arcs, log>>
\* s: start, e: stop (seconds), k: mass flow, isp: seconds, dir: name of a direction
Menu == <<
  [s |-> 0, e |-> 10, k |-> 1, isp |-> 300, dir |-> "345"],
  [s |-> 10, e |-> 15, k |-> 2, isp |-> 100, dir |-> "z"],
  [s |-> 5, e |-> 6, k |-> 3, isp |-> 2000, dir |-> "122"],
  [s |-> 0, e |-> 10, k |-> 2, isp |-> 300, dir |-> "huge"],
  [s |-> 20, e |-> 30, k |-> 0, isp |-> 300, dir |-> "tiny"],
  [s |-> -5, e |-> 5, k |-> 1, isp |-> 50, dir |-> "y"],
  [s |-> 10, e |-> 10, k |-> 1, isp |-> 300, dir |-> "z"],
  [s |-> 12, e |-> 10, k |-> 1, isp |-> 300, dir |-> "z"],
  [s |-> 0, e |-> 5, k |-> 1, isp |-> 0, dir |-> "z"],
  [s |-> 0, e |-> 5, k |-> 1, isp |-> -100, dir |-> "z"],
  [s |-> 0, e |-> 5, k |-> 1, isp |-> 99999, dir |-> "z"],
  [s |-> 0, e |-> 5, k |-> 1, isp |-> 300, dir |-> "zero"],
  [s |-> 0, e |-> 5, k |-> 1, isp |-> 300, dir |-> "nan"],
  [s |-> 0, e |-> 5, k |-> 1, isp |-> 300, dir |-> "inf"],
  [s |-> 0, e |-> 5, k |-> 99, isp |-> 300, dir |-> "z"] >>    \* 99: thrust not a number
TimeOk(a) == a.e > a.s
IspOk(a) == a.isp > 0 /\ a.isp # 99999          \* 99999: not a number
DirOk(a) == a.dir \notin {"zero", "nan", "inf"}
Buildable(a) == TimeOk(a) /\ IspOk(a) /\ DirOk(a)
Burns(a) == TimeOk(a) /\ IspOk(a) /\ a.k # 99
Use(a) == a.k * (a.e - a.s)
Init == m0 \in {20, 31} /\ mass = m0 /\ arcs = <<>> /\ log = <<>>
Burn(m) == LET a == Menu[m]  ok == Burns(a) /\ mass - Use(a) > 0 IN
    /\ Len(arcs) < MaxArcs /\ m0' = m0 /\ arcs' = Append(arcs, m)
    /\ mass' = (IF ok THEN mass - Use(a) ELSE mass)
    /\ log' = Append(log, IF ok THEN [ok |-> TRUE, before |-> mass, used |-> Use(a), isp |-> a.isp, dur |-> a.e - a.s] ELSE [ok |-> FALSE])
Next == \E m \in Used : Burn(m)
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
Good == SelectSeq(log, LAMBDA r : r.ok)
RECURSIVE Total(_, _)
Total(g, k) == IF k = 0 THEN 0 ELSE g[k].used + Total(g, k - 1)
Conserved == mass + Total(Good, Len(Good)) = m0 /\ mass > 0
Chained == \A i \in 1 .. Len(Good) - 1 : Good[i + 1].before = Good[i].before - Good[i].used
Active(a, t) == a.s <= t /\ t < a.e
\* an arc acts on its own span, and consecutive arcs share no instant
Handover == \A i, j \in DOMAIN Menu, t \in -6 .. 31 : Menu[i].e = Menu[j].s => ~(Active(Menu[i], t) /\ Active(Menu[j], t))
Times(a) == <<a.s - 1, a.s, a.e - 1, a.e, a.e + 1>>
Emit == PrintT("SCN " \o ToJson([m0 |-> m0, mass |-> mass, log |-> log,
    arcs |-> [i \in DOMAIN arcs |-> LET a == Menu[arcs[i]] IN [s |-> a.s, e |-> a.e, k |-> a.k, isp |-> a.isp, dir |-> a.dir,
        build |-> Buildable(a), at |-> [j \in 1 .. 5 |-> <<Times(a)[j], IF Active(a, Times(a)[j]) THEN 1 ELSE 0>>]]]]))
=============================================================================

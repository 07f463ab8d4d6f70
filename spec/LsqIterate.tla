----------------------------- MODULE LsqIterate -----------------------------
\* Iterated least squares for two parameters: observations of known functions of the
\* parameters, a starting point, and the options of the iteration.  A consistent problem
\* (all observations agree) has to be solved as well as one with noise.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
\* kind "lin": z = h1 p1 + h2 p2 ; kind "sq": z = p1^2 ; kind "mul": z = p1 p2
Menu == <<
  [k |-> "lin", h |-> <<1, 0>>], [k |-> "lin", h |-> <<0, 1>>], [k |-> "lin", h |-> <<1, 1>>],
  [k |-> "lin", h |-> <<2, -1>>], [k |-> "sq", h |-> <<0, 0>>], [k |-> "mul", h |-> <<0, 0>>] >>
Truths == {<<2, 3>>, <<1, -2>>}
Starts == {"truth", "near", "zero", "far"}
CONSTANTS MaxObs
VARIABLES truth, obs, noise, start, opt, done
vars == <<truth, obs, noise, start, opt, done>>
Init == truth \in Truths /\ obs = <<>> /\ noise = <<>> /\ start = "truth" /\ opt = "plain" /\ done = FALSE
Observe(m, e) == /\ ~done /\ Len(obs) < MaxObs /\ obs' = Append(obs, m) /\ noise' = Append(noise, e)
                 /\ (Menu[m].k # "lin" => e = 0) /\ UNCHANGED <<truth, start, opt, done>>
Solve(s, o) == /\ ~done /\ Len(obs) >= 1 /\ done' = TRUE /\ start' = s /\ opt' = o /\ UNCHANGED <<truth, obs, noise>>
Next == (\E m \in DOMAIN Menu, e \in {0, 1, -1} : Observe(m, e)) \/ (\E s \in Starts, o \in {"plain", "once", "none", "nan", "width", "fail2", "strict"} : Solve(s, o))
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
Z(k) == LET m == Menu[obs[k]] IN
    (IF m.k = "lin" THEN m.h[1] * truth[1] + m.h[2] * truth[2] ELSE IF m.k = "sq" THEN truth[1] * truth[1] ELSE truth[1] * truth[2]) + noise[k]
Linear == \A k \in DOMAIN obs : Menu[obs[k]].k = "lin"
Exact == \A k \in DOMAIN noise : noise[k] = 0
RECURSIVE Sum(_, _)
Sum(f, k) == IF k = 0 THEN 0 ELSE f[k] + Sum(f, k - 1)
S(F(_)) == Sum([k \in DOMAIN obs |-> F(k)], Len(obs))
h1(k) == Menu[obs[k]].h[1]
h2(k) == Menu[obs[k]].h[2]
A == S(LAMBDA k : h1(k) * h1(k))  B == S(LAMBDA k : h1(k) * h2(k))  D == S(LAMBDA k : h2(k) * h2(k))
U == S(LAMBDA k : h1(k) * Z(k))   V == S(LAMBDA k : h2(k) * Z(k))
Det == A * D - B * B
\* a nonlinear consistent problem with a unique nearby solution, well enough conditioned at the truth
G1(k) == LET m == Menu[obs[k]] IN IF m.k = "lin" THEN m.h[1] ELSE IF m.k = "sq" THEN 2 * truth[1] ELSE truth[2]
G2(k) == LET m == Menu[obs[k]] IN IF m.k = "lin" THEN m.h[2] ELSE IF m.k = "sq" THEN 0 ELSE truth[1]
LocalDet == S(LAMBDA k : G1(k) * G1(k)) * S(LAMBDA k : G2(k) * G2(k)) - S(LAMBDA k : G1(k) * G2(k)) * S(LAMBDA k : G1(k) * G2(k))
Solvable == IF Linear THEN Det # 0 ELSE Exact /\ LocalDet # 0 /\ start \in {"truth", "near"}
Expect == IF opt \in {"none", "nan", "width"} THEN "refused"
          ELSE IF Linear /\ Det = 0 THEN "any"
          ELSE IF ~Solvable THEN "any" ELSE IF opt = "strict" THEN "sound"
          ELSE IF opt = "fail2" THEN "failed" ELSE IF opt = "once" THEN "unconverged" ELSE "solved"
\* exact data are fitted by the truth itself
Consistent == done /\ Linear /\ Exact /\ Det # 0 => U * D - V * B = Det * truth[1] /\ V * A - U * B = Det * truth[2]
Emit == done => PrintT("SCN " \o ToJson([obs |-> [k \in DOMAIN obs |-> [k |-> Menu[obs[k]].k, h |-> Menu[obs[k]].h, z |-> Z(k)]],
    truth |-> truth, start |-> start, opt |-> opt, linear |-> Linear, exact |-> Exact, expect |-> Expect,
    x |-> IF Linear THEN <<U * D - V * B, V * A - U * B, Det>> ELSE <<truth[1], truth[2], 1>>]))
=============================================================================

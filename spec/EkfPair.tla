------------------------------ MODULE EkfPair ------------------------------
\* A sequential filter seen through two of its six components, with exact rational
\* arithmetic: covariance P = <<a, b, c>> / d, state x = <<x1, x2>> / e.  Predictions shear
\* the pair (component i moves with component j) and may add process noise; updates are
\* scalar.  Unusable updates leave the filter as it was.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
PairsQ == {<<0, 3>>, <<2, 5>>, <<1, 0>>, <<4, 2>>}
PairsT == {<<0, 3>>, <<1, 4>>, <<2, 5>>, <<0, 1>>, <<1, 0>>, <<4, 2>>, <<3, 5>>, <<5, 0>>}
CONSTANTS MaxOps, Pairs, Ops
VARIABLES pair, P0, P, d, x, e, t, ops, records
vars == <<pair, P0, P, d, x, e, t, ops, records>>
RECURSIVE Gcd(_, _)
Gcd(m, n) == IF n = 0 THEN (IF m < 0 THEN -m ELSE m) ELSE Gcd(n, m % n)
Abs(m) == IF m < 0 THEN -m ELSE m
G4(p, q) == Gcd(Gcd(Abs(p[1]), Abs(p[2])), Gcd(Abs(p[3]), q))
NormP(p, q) == LET g == G4(p, q) IN <<<<p[1] \div g, p[2] \div g, p[3] \div g>>, q \div g>>
NormX(y, q) == LET g == Gcd(Gcd(Abs(y[1]), Abs(y[2])), q) IN <<<<y[1] \div g, y[2] \div g>>, q \div g>>
\* operations: <<"go", dt, psd>> | <<"see", h1, h2, r, innovation>> | <<"bad", what>>
Menu == <<
  <<"go", 1, 0>>, <<"go", 2, 0>>, <<"go", 1, 6>>, <<"go", 2, 6>>, <<"go", 0, 6>>,
  <<"see", 1, 0, 1, 1>>, <<"see", 0, 1, 2, -1>>, <<"see", 1, 1, 1, 2>>, <<"see", 1, -1, 2, 0>>, <<"see", 1, 0, 0, 1>>,
  <<"see", 0, 0, 0, 1>>, <<"see", 0, 0, 2, 3>>, <<"see", 2, 1, 4, -2>>,
  <<"bad", "r-negative">>, <<"bad", "r-nan">>, <<"bad", "z-inf">>, <<"bad", "h-nan">>, <<"bad", "z-nan">> >>
Init == /\ pair \in Pairs /\ P0 \in {<<1, 0, 1>>, <<4, 0, 1>>} /\ P = P0 /\ d = 1 /\ x = <<1, 2>> /\ e = 1
        /\ t = 0 /\ ops = <<>> /\ records = <<>>
\* process noise of a white acceleration of the given density over dt; only for a position with its own velocity
Q(dt, psd) == <<(psd \div 3) * dt * dt * dt, (psd \div 2) * dt * dt, psd * dt>>
Go(op) == LET dt == op[2]  q == Q(dt, op[3])
              n == NormP(<<P[1] + 2 * dt * P[2] + dt * dt * P[3] + q[1] * d, P[2] + dt * P[3] + q[2] * d, P[3] + q[3] * d>>, d)
              y == NormX(<<x[1] + dt * x[2], x[2]>>, e)
          IN /\ (op[3] # 0 => pair[2] = pair[1] + 3)
             /\ P' = n[1] /\ d' = n[2] /\ x' = y[1] /\ e' = y[2] /\ t' = t + dt
             /\ records' = Append(records, <<"moved">>)
See(op) == LET h1 == op[2]  h2 == op[3]  r == op[4]  z == op[5]
               u1 == P[1] * h1 + P[2] * h2
               u2 == P[2] * h1 + P[3] * h2
               D == h1 * u1 + h2 * u2 + r * d          \* innovation variance times d
               n == NormP(<<P[1] * D - u1 * u1, P[2] * D - u1 * u2, P[3] * D - u2 * u2>>, d * D)
               y == NormX(<<x[1] * D + u1 * z * e, x[2] * D + u2 * z * e>>, e * D)
           IN IF D = 0 THEN UNCHANGED <<P, d, x, e, t>> /\ records' = Append(records, <<"singular">>)
              ELSE /\ P' = n[1] /\ d' = n[2] /\ x' = y[1] /\ e' = y[2] /\ t' = t
                   /\ records' = Append(records, <<"seen", D, d, z>>)
Bad(op) == UNCHANGED <<P, d, x, e, t>> /\ records' = Append(records, <<"refused">>)
Do(m) == /\ Len(ops) < MaxOps /\ ops' = Append(ops, Menu[m]) /\ pair' = pair /\ P0' = P0
         /\ IF Menu[m][1] = "go" THEN Go(Menu[m]) ELSE IF Menu[m][1] = "see" THEN See(Menu[m]) ELSE Bad(Menu[m])
Next == \E m \in Ops : Do(m)
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
\* covariance stays positive semidefinite and an observation never increases a variance
Psd == d > 0 /\ e > 0 /\ P[1] >= 0 /\ P[3] >= 0 /\ P[1] * P[3] >= P[2] * P[2]
NoWorse == [][Len(ops') = Len(ops) + 1 /\ ops'[Len(ops')][1] # "go" => P'[1] * d <= P[1] * d' /\ P'[3] * d <= P[3] * d']_vars
\* one gap in two legs is one gap
SplitGap == \A a, b \in 1 .. 2 : LET q == Q(a + b, 6)  qa == Q(a, 6)  qb == Q(b, 6) IN
    q = <<qa[1] + 2 * b * qa[2] + b * b * qa[3] + qb[1], qa[2] + b * qa[3] + qb[2], qa[3] + qb[3]>>
Emit == Len(ops) > 0 => PrintT("SCN " \o ToJson([pair |-> pair, start |-> P0, ops |-> ops, P |-> P, d |-> d, x |-> x, e |-> e, t |-> t, records |-> records]))
=============================================================================

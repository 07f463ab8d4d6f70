------------------------------ MODULE LsqRows ------------------------------
\* Assembling weighted least squares one observation row at a time, for three parameters.
\* A row is a list of (parameter, partial), a residual and a weight 1/sigma^2.  Rows that
\* cannot be used are refused and leave no trace; the solution depends only on the accepted
\* rows, whatever their order.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
\* partial 99 = not a number, 98 = infinite; weight 0 = sigma 0, -1 = negative sigma, -2 = infinite sigma, -3 = sigma not a number
Menu == <<
  [p |-> <<<<0, 1>>>>, r |-> 2, w |-> 1],
  [p |-> <<<<1, 1>>>>, r |-> -1, w |-> 4],
  [p |-> <<<<2, 2>>>>, r |-> 3, w |-> 1],
  [p |-> <<<<0, 1>>, <<1, -1>>>>, r |-> 1, w |-> 1],
  [p |-> <<<<2, 1>>, <<0, 2>>>>, r |-> 0, w |-> 4],
  [p |-> <<<<1, 1>>, <<1, 1>>>>, r |-> 2, w |-> 1],
  [p |-> <<>>, r |-> 5, w |-> 4],
  [p |-> <<<<2, 1>>, <<1, 2>>, <<0, -1>>>>, r |-> -2, w |-> 1],
  [p |-> <<<<0, 1>>, <<3, 1>>>>, r |-> 1, w |-> 1],
  [p |-> <<<<1, 2>>, <<2, 99>>>>, r |-> 1, w |-> 1],
  [p |-> <<<<2, 98>>, <<0, 1>>>>, r |-> 1, w |-> 4],
  [p |-> <<<<0, 1>>>>, r |-> 99, w |-> 1],
  [p |-> <<<<1, 1>>>>, r |-> 1, w |-> 0],
  [p |-> <<<<1, 1>>>>, r |-> 1, w |-> -1],
  [p |-> <<<<2, 1>>>>, r |-> 1, w |-> -2],
  [p |-> <<<<2, 1>>>>, r |-> 98, w |-> 1],
  [p |-> <<<<2, 1>>>>, r |-> 1, w |-> -3] >>
CONSTANTS MaxRows, Used
VARIABLES rows, N, b, chi2, nobs, verdicts
vars == <<rows, N, b, chi2, nobs, verdicts>>
I == 0 .. 2
Usable(row) == /\ row.w > 0 /\ row.r \notin {98, 99}
               /\ \A k \in DOMAIN row.p : row.p[k][1] \in I /\ row.p[k][2] \notin {98, 99}
RECURSIVE SumP(_, _, _)
SumP(p, i, k) == IF k > Len(p) THEN 0 ELSE (IF p[k][1] = i THEN p[k][2] ELSE 0) + SumP(p, i, k + 1)
H(row, i) == SumP(row.p, i, 1)
Init == rows = <<>> /\ N = [x \in I \X I |-> 0] /\ b = [i \in I |-> 0] /\ chi2 = 0 /\ nobs = 0 /\ verdicts = <<>>
Accept(row) == /\ N' = [x \in I \X I |-> N[x] + row.w * H(row, x[1]) * H(row, x[2])]
               /\ b' = [i \in I |-> b[i] + row.w * H(row, i) * row.r]
               /\ chi2' = chi2 + row.w * row.r * row.r /\ nobs' = nobs + 1
               /\ verdicts' = Append(verdicts, TRUE)
Refuse == UNCHANGED <<N, b, chi2, nobs>> /\ verdicts' = Append(verdicts, FALSE)
Add(m) == /\ Len(rows) < MaxRows /\ rows' = Append(rows, m)
          /\ IF Usable(Menu[m]) THEN Accept(Menu[m]) ELSE Refuse
Next == \E m \in Used : Add(m)
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
\* Solution by cofactors
X(i) == i % 3
Cof(i, j) == N[<<X(i + 1), X(j + 1)>>] * N[<<X(i + 2), X(j + 2)>>] - N[<<X(i + 1), X(j + 2)>>] * N[<<X(i + 2), X(j + 1)>>]
Det == N[<<0, 0>>] * Cof(0, 0) + N[<<0, 1>>] * Cof(0, 1) + N[<<0, 2>>] * Cof(0, 2)
Unseen == \E i \in I : \A j \in I : N[<<i, j>>] = 0
\* the same rows in another order give the same equations
RECURSIVE Total(_, _, _)
Total(i, j, k) == IF k = 0 THEN 0 ELSE Total(i, j, k - 1) +
    (IF Usable(Menu[rows[k]]) THEN Menu[rows[k]].w * H(Menu[rows[k]], i) * H(Menu[rows[k]], j) ELSE 0)
OrderFree == \A i, j \in I : N[<<i, j>>] = Total(i, j, Len(rows))
Semidefinite == /\ \A i \in I : N[<<i, i>>] >= 0 /\ Cof(i, i) >= 0
                /\ Det >= 0
Unknowns == Det > 0 => nobs >= 3
Emit == PrintT("SCN " \o ToJson([rows |-> [k \in DOMAIN rows |-> Menu[rows[k]]], ok |-> verdicts, chi2 |-> chi2, nobs |-> nobs,
    det |-> Det, unseen |-> Unseen,
    x |-> [i \in 1 .. 3 |-> Cof(0, i - 1) * b[0] + Cof(1, i - 1) * b[1] + Cof(2, i - 1) * b[2]],
    cov |-> [i \in 1 .. 3 |-> [j \in 1 .. 3 |-> Cof(i - 1, j - 1)]]]))
=============================================================================

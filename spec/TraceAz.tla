------------------------------- MODULE TraceAz -------------------------------
(* Trace specification for azimuth queries on real bodies.  Each line is one window with  *)
(* plain azimuth samples and everything the public searches returned: the crossings of     *)
(* the two edges of a band, the periods inside and outside the band, the turning points.   *)
(* An automaton follows the body through the window: it enters and leaves the band at      *)
(* crossings, and turns at extrema; the samples have to agree with where it thinks it is.  *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
TOL == 400            \* 4 s, in units of 0.01 s
CIRC == 360000        \* azimuth in units of 0.001 degree
M == 25               \* samples this close to an edge decide nothing
FAST == 40000         \* an azimuth change that leaves the way round open
VARIABLES l, ph, k, c, in, known, cuts
vars == <<l, ph, k, c, in, known, cuts>>
Cur == Trace[l]
S == Cur.samples
Abs(x) == IF x < 0 THEN -x ELSE x
Mod(x, m) == ((x % m) + m) % m
Wrap(x) == LET y == Mod(x, CIRC) IN IF y > CIRC \div 2 THEN y - CIRC ELSE y
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Near(a, b) == Abs(a - b) <= TOL
Width == Mod(Cur.hi - Cur.lo, CIRC)                       \* the band runs from lo clockwise to hi
SideOf(a) == IF Abs(Wrap(a - Cur.lo)) <= M \/ Abs(Wrap(a - Cur.hi)) <= M THEN 0
             ELSE IF Mod(a - Cur.lo, CIRC) < Width THEN 1 ELSE -1
Init == l = 1 /\ ph = "edges" /\ k = 1 /\ c = 1 /\ in = FALSE /\ known = FALSE /\ cuts = <<>>
Active(p) == l <= Len(Trace) /\ Cur.ev = "query" /\ ph = p
---------------------------------------------------------------------------
\* one crossing <<time, direction, offset from the bearing, true direction>>
GoodCross(x, prev) == /\ x[1] >= 0 /\ x[1] <= Cur.len /\ x[1] >= prev
                      /\ Abs(x[3]) <= 10
                      /\ (x[4] # 0 => x[2] = x[4])
GoodList(xs) == \A i \in DOMAIN xs : GoodCross(xs[i], IF i = 1 THEN 0 ELSE xs[i - 1][1])
\* two crossings of one bearing in the same direction: the body has been round
RECURSIVE Merge(_, _, _, _)
Merge(a, i, b, j) == IF i > Len(a) /\ j > Len(b) THEN <<>>
    ELSE IF j > Len(b) \/ (i <= Len(a) /\ a[i][1] <= b[j][1]) THEN <<<<a[i][1], a[i][2]>>>> \o Merge(a, i + 1, b, j)
    ELSE <<<<b[j][1], -b[j][2]>>>> \o Merge(a, i, b, j + 1)
\* times at which the body enters (1) or leaves (-1) the band
Gates == Merge(Cur.locross, 1, Cur.hicross, 1)
Edges == /\ Active("edges")
         /\ GoodList(Cur.locross) /\ GoodList(Cur.hicross)
         /\ cuts' = Gates /\ ph' = "band" /\ k' = 1 /\ c' = 1 /\ known' = FALSE /\ in' = FALSE /\ UNCHANGED l
GateFirst == c <= Len(cuts) /\ (k > Len(S) \/ cuts[c][1] <= S[k][1])
Gate == /\ Active("band") /\ GateFirst
        /\ (known => in = (cuts[c][2] = -1))
        /\ in' = (cuts[c][2] = 1) /\ known' = TRUE /\ c' = c + 1 /\ UNCHANGED <<l, ph, k, cuts>>
Sample == /\ Active("band") /\ ~GateFirst /\ k <= Len(S)
          /\ LET s == SideOf(S[k][2]) IN
             IF s = 0 THEN UNCHANGED <<in, known>>
             ELSE (known => in = (s = 1)) /\ in' = (s = 1) /\ known' = TRUE
          /\ k' = k + 1 /\ UNCHANGED <<l, ph, c, cuts>>
\* the periods the gates delimit
RECURSIVE Stays(_, _)
Stays(i, from) == IF i > Len(cuts) THEN (IF from >= 0 THEN <<<<from, Cur.len>>>> ELSE <<>>)
                  ELSE IF cuts[i][2] = 1 THEN Stays(i + 1, IF from >= 0 THEN from ELSE cuts[i][1])
                  ELSE (IF from >= 0 THEN <<<<from, cuts[i][1]>>>> ELSE <<>>) \o Stays(i + 1, -1)
StartIn == IF cuts = <<>> THEN in ELSE cuts[1][2] = -1
Want == Stays(1, IF StartIn THEN 0 ELSE -1)
RECURSIVE Gaps(_, _, _)
Gaps(ps, i, from) == IF i > Len(ps) THEN (IF from < Cur.len THEN <<<<from, Cur.len>>>> ELSE <<>>)
                     ELSE (IF ps[i][1] > from THEN <<<<from, ps[i][1]>>>> ELSE <<>>) \o Gaps(ps, i + 1, ps[i][2])
Long(p) == p[2] - p[1] > TOL
Same(got, want) == LET g == SelectSeq(got, Long)  w == SelectSeq(want, Long) IN
    Len(g) = Len(w) /\ \A i \in DOMAIN g : Near(g[i][1], w[i][1]) /\ Near(g[i][2], w[i][2])
Ordered(ps) == /\ \A i \in DOMAIN ps : 0 <= ps[i][1] /\ ps[i][1] <= ps[i][2] /\ ps[i][2] <= Cur.len
               /\ \A i \in 1..(Len(ps) - 1) : ps[i][2] <= ps[i+1][1]
EndBand == /\ Active("band") /\ k > Len(S) /\ c > Len(cuts)
           /\ ((Ordered(Cur.inside) /\ Ordered(Cur.outside)
                /\ (known => Same(Cur.inside, Want) /\ Same(Cur.outside, Gaps(Want, 1, 0)))) = TRUE)
           /\ ph' = "turns" /\ k' = 1 /\ c' = 1 /\ in' = FALSE /\ known' = FALSE /\ UNCHANGED <<l, cuts>>
---------------------------------------------------------------------------
\* turning points: between samples k and k + 1 the azimuth goes one way
Change == Wrap(S[k + 1][2] - S[k][2])
TurnFirst == c <= Len(Cur.turns) /\ (k >= Len(S) \/ Cur.turns[c][1] <= S[k + 1][1])
Turn == /\ Active("turns") /\ TurnFirst
        /\ LET x == Cur.turns[c] IN        \* <<time, +1 max / -1 min, |reported - azimuth_at|>>
           /\ x[1] >= 0 /\ x[1] <= Cur.len /\ (c > 1 => x[1] >= Cur.turns[c - 1][1])
           /\ x[3] <= 1
           /\ (known => in = (x[2] = 1))   \* growing before a maximum
           /\ in' = (x[2] = -1)
        /\ known' = TRUE /\ c' = c + 1 /\ UNCHANGED <<l, ph, k, cuts>>
Contains == (c > 1 /\ Cur.turns[c-1][1] >= S[k][1] - TOL) \/ (c <= Len(Cur.turns) /\ Cur.turns[c][1] <= S[k+1][1] + TOL)
Run == /\ Active("turns") /\ ~TurnFirst /\ k < Len(S)
       /\ IF Abs(Change) <= 5 \/ Abs(Change) >= FAST \/ Contains THEN UNCHANGED <<in, known>>
          ELSE (known => in = (Change > 0)) /\ in' = (Change > 0) /\ known' = TRUE
       /\ k' = k + 1 /\ UNCHANGED <<l, ph, c, cuts>>
EndQuery == /\ Active("turns") /\ k >= Len(S) /\ c > Len(Cur.turns)
            /\ l' = l + 1 /\ ph' = "edges" /\ k' = 1 /\ c' = 1 /\ in' = FALSE /\ known' = FALSE /\ cuts' = <<>>
Next == Edges \/ Gate \/ Sample \/ EndBand \/ Turn \/ Run \/ EndQuery
Spec == Init /\ [][Next]_vars
Reached == TLCSet(1, <<l, ph, k, c, in, known>>)
Accepted == IF TLCGet(1)[1] > Len(Trace) THEN PrintT("TRACE OK " \o ToString(Len(Trace)))
            ELSE PrintT("REJECT " \o ToJson([line |-> TLCGet(1)[1], at |-> TLCGet(1)]))
=============================================================================

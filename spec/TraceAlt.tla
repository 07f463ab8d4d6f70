------------------------------ MODULE TraceAlt ------------------------------
(* Trace specification for altitude queries on real bodies (Sun, Moon, planets, stars).  *)
(* Each trace line is one window with everything the public search returned for two     *)
(* thresholds, plus plain altitude samples.  The observer automaton of AltObserver is   *)
(* swept over the window: a returned crossing must be the crossing it is labelled as,    *)
(* every sample must lie on the side the crossings say it lies on, and the returned      *)
(* periods must be the ones the observer delimits.  A second sweep does the same for     *)
(* culminations (the body rises until a maximum, sets until a minimum).                   *)
EXTENDS AltObserver, TLC, Json, IOUtils
CONSTANTS Part        \* "periods" | "events" | "all": what to check

Trace == ndJsonDeserialize(IOEnv.TRACE)
TOL == 400            \* 4 s in units of 0.01 s
ALT == 3000           \* 0.03 deg in units of 1e-5 deg

VARIABLES l, ph, k, c, o, known, d
vars == <<l, ph, k, c, o, known, d>>

Cur == Trace[l]
T == IF ph = "hi" THEN Cur.hi ELSE Cur.lo
SideOf(k1) == IF ph = "hi" THEN Cur.samples[k1][3] ELSE Cur.samples[k1][2]
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b) == Abs(a - b) <= TOL

Init == l = 1 /\ ph = "lo" /\ k = 1 /\ c = 1 /\ o = Fresh /\ known = FALSE /\ d = 0
Active(p) == l <= Len(Trace) /\ Cur.ev = "query" /\ ph = p
Sweep == Active("lo") \/ Active("hi")
CrossFirst == c <= Len(T.cross) /\ (k > Len(Cur.samples) \/ T.cross[c][1] <= Cur.samples[k][1])

Cross == /\ Sweep /\ CrossFirst
         /\ LET x == T.cross[c]
                up == x[2] = 1
            IN /\ x[1] >= 0 /\ x[1] <= Cur.len
               /\ (c > 1 => x[1] >= T.cross[c-1][1])
               /\ Abs(x[3]) <= ALT
               /\ (known => o.side = ~up)
               /\ o' = Flip([o EXCEPT !.side = ~up], [up |-> up, t |-> x[1]])
         /\ c' = c + 1 /\ known' = TRUE
         /\ UNCHANGED <<l, ph, k, d>>

Sample == /\ Sweep /\ ~CrossFirst /\ k <= Len(Cur.samples)
          /\ LET s == SideOf(k) IN
             IF s = 0 THEN UNCHANGED <<o, known>>
             ELSE /\ (known => o.side = (s = 1))
                  /\ o' = [o EXCEPT !.side = (s = 1)]
                  /\ known' = TRUE
          /\ k' = k + 1
          /\ UNCHANGED <<l, ph, c, d>>

Swept == k > Len(Cur.samples) /\ c > Len(T.cross)
\* periods as times; the ones too short to matter are dropped on both sides
TimeOf(n) == IF n = START THEN 0 ELSE IF n = END THEN Cur.len ELSE o.cross[n].t
Long(p) == p[2] - p[1] > TOL
Named(ps) == SelectSeq([i \in DOMAIN ps |-> <<TimeOf(ps[i][1]), TimeOf(ps[i][2])>>], Long)
SamePeriods(got, want) ==
  LET g == SelectSeq(got, Long) IN
  /\ Len(g) = Len(want)
  /\ \A i \in DOMAIN g : Near(g[i][1], want[i][1]) /\ Near(g[i][2], want[i][2])
Ordered(ps) == /\ \A i \in DOMAIN ps : 0 <= ps[i][1] /\ ps[i][1] <= ps[i][2] /\ ps[i][2] <= Cur.len
               /\ \A i \in 1..(Len(ps) - 1) : ps[i][2] <= ps[i+1][1]
PeriodsOK == LET q == Close(o) IN
  /\ Ordered(T.above) /\ Ordered(T.below)
  /\ known => SamePeriods(T.above, Named(q.above)) /\ SamePeriods(T.below, Named(q.below))

\* altitude band: what the samples say, and every boundary is a crossing of one threshold
InPeriods(ps, t) == \E i \in DOMAIN ps : ps[i][1] <= t /\ t <= ps[i][2]
Boundary(t) == \/ Near(t, 0) \/ Near(t, Cur.len)
               \/ \E i \in DOMAIN Cur.lo.cross : Near(t, Cur.lo.cross[i][1])
               \/ \E i \in DOMAIN Cur.hi.cross : Near(t, Cur.hi.cross[i][1])
BandOK == /\ Ordered(Cur.band)
          /\ \A i \in DOMAIN Cur.samples : LET s == Cur.samples[i] IN
               (s[2] # 0 /\ s[3] # 0) => (InPeriods(Cur.band, s[1]) <=> (s[2] = 1 /\ s[3] = -1))
          /\ \A i \in DOMAIN Cur.band : Boundary(Cur.band[i][1]) /\ Boundary(Cur.band[i][2])

EndSweep == /\ Sweep /\ Swept
            /\ ((Part # "events" => PeriodsOK /\ (ph = "hi" => BandOK)) = TRUE)
            /\ ph' = IF ph = "lo" THEN "hi" ELSE "culm"
            /\ k' = 1 /\ c' = 1 /\ o' = Fresh /\ known' = FALSE /\ d' = 0
            /\ UNCHANGED l

\* culminations: runs[k] = <<t0, t1, sign of the altitude change>>
Run == Cur.runs[k]
CulmFirst == c <= Len(Cur.culm) /\ (k > Len(Cur.runs) \/ Cur.culm[c][1] <= Run[2])
Culm == /\ Active("culm") /\ CulmFirst /\ Part # "periods"
        /\ LET x == Cur.culm[c] IN
           /\ x[1] >= 0 /\ x[1] <= Cur.len
           /\ (c > 1 => x[1] >= Cur.culm[c-1][1])
           /\ Abs(x[3]) <= 100
           /\ (d # 0 => d = x[2])      \* rising before a maximum, falling before a minimum
           /\ d' = -x[2]
        /\ c' = c + 1
        /\ UNCHANGED <<l, ph, k, o, known>>
\* a run that contains a culmination says nothing; any other must go the way d says
Holds == (c > 1 /\ Cur.culm[c-1][1] >= Run[1] - TOL) \/ (c <= Len(Cur.culm) /\ Cur.culm[c][1] <= Run[2] + TOL)
RunStep == /\ Active("culm") /\ ~CulmFirst /\ k <= Len(Cur.runs) /\ Part # "periods"
           /\ IF Run[3] = 0 \/ Holds THEN d' = d
              ELSE (d # 0 => d = Run[3]) /\ d' = Run[3]
           /\ k' = k + 1
           /\ UNCHANGED <<l, ph, c, o, known>>
EndQuery == /\ Active("culm")
            /\ Part = "periods" \/ (k > Len(Cur.runs) /\ c > Len(Cur.culm))
            /\ l' = l + 1 /\ ph' = "lo" /\ k' = 1 /\ c' = 1 /\ o' = Fresh /\ known' = FALSE /\ d' = 0

Next == Cross \/ Sample \/ EndSweep \/ Culm \/ RunStep \/ EndQuery
Spec == Init /\ [][Next]_vars

SweepAlternates == Alternates(o)
Reached == TLCSet(1, <<l, ph, k, c, o, known, d>>)      \* the machine is deterministic
Accepted == IF TLCGet(1)[1] > Len(Trace) THEN PrintT("TRACE OK " \o ToString(Len(Trace)))
            ELSE PrintT("REJECT " \o ToJson([line |-> TLCGet(1)[1], at |-> TLCGet(1)]))
=============================================================================

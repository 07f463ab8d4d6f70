------------------------------ MODULE AltSearch ------------------------------
(* Altitude event search over a window (crossings, above/below periods, altitude       *)
(* bands, culminations) for a body whose altitude moves monotonically between extreme  *)
(* levels.  One behaviour = one sky: the body moves slot by slot; the observer is an   *)
(* automaton that reacts to threshold crossings the way a sweep over the window does.  *)
(* Every complete behaviour is emitted with the answers the search must return and is  *)
(* replayed through the public search functions with a scripted AltitudeProvider.      *)
EXTENDS AltObserver, TLC, Json

CONSTANTS NSlots,      \* number of monotone slots in the window
          Levels,      \* extreme altitudes (degrees + 90)
          ThrLo, ThrHi,\* the two thresholds (degrees + 90)
          Starts,      \* phase (in quarters of the slot's altitude change) where the window opens
          Ends,        \* phase where the window closes in the last slot
          Shapes,      \* slot-duration patterns (interpreted by the harness)
          Hints,       \* scan-step hints (0 = none)
          Tols,        \* time tolerance index
          OnThr,       \* may the body sit exactly on a threshold at a knot?
          Plateaus     \* may the altitude stay constant during a slot?

VARIABLES path, q0, q1, cfg, lo, hi, rng, culm, done
vars == <<path, q0, q1, cfg, lo, hi, rng, culm, done>>

Init == /\ path \in {<<l>> : l \in Levels}
        /\ q0 \in Starts
        /\ q1 = 4
        /\ cfg \in [shape : Shapes, hint : Hints, tol : Tols]
        /\ lo = Fresh /\ hi = Fresh
        /\ rng = [side |-> FALSE, open |-> START, per |-> <<>>]
        /\ culm = <<>>
        /\ done = FALSE

\* altitude * 4 at phase q of the slot a -> b
At(a, b, q) == (4 - q) * a + q * b

\* The observer of one threshold sees the altitude going from f4 to t4 in slot s.  With
\* OnThr, levels may lie exactly on the threshold: the crossing then happens at the knot
\* between two slots ("knot"), and is noticed on the way out; a window that opens on the
\* threshold takes the side it moves to.
On(x4, thr) == x4 = 4 * thr
See(o, first, f4, t4, thr, s) ==
  LET before == IF first THEN (IF On(f4, thr) THEN t4 > 4 * thr ELSE f4 > 4 * thr) ELSE o.side
      o1     == [o EXCEPT !.side = before]
      after  == IF On(t4, thr) THEN before ELSE t4 > 4 * thr
  IN IF before = after THEN o1
     ELSE Flip(o1, [slot |-> s, up |-> after, knot |-> On(f4, thr)])
\* touching the threshold at a knot without crossing it
Touch(o, first, f4, t4, thr) == ~first /\ On(f4, thr) /\ ((t4 > 4 * thr) = o.side)

\* the band observer sees the (ordered) crossings of one slot
BandStep(r, inside, mark) ==
  IF r.side = inside THEN r
  ELSE IF inside THEN [side |-> TRUE, open |-> mark, per |-> r.per]
       ELSE [side |-> FALSE, open |-> 0, per |-> Append(r.per, <<r.open, mark>>)]

SeeBand(r, first, o1, o2, n1, n2, f4, t4) ==
  \* o1/o2: lo/hi observers before, n1/n2: after the slot
  LET o1s == IF Len(n1.cross) > 0 THEN [side |-> ~n1.cross[1].up] ELSE n1
      o2s == IF Len(n2.cross) > 0 THEN [side |-> ~n2.cross[1].up] ELSE n2
      in0 == o1s.side /\ ~o2s.side
      r0  == IF first THEN [side |-> in0, open |-> START, per |-> <<>>] ELSE r
      cl  == Len(n1.cross) > Len(o1.cross)
      ch  == Len(n2.cross) > Len(o2.cross)
      ml  == Len(n1.cross)
      mh  == 100 + Len(n2.cross)
      up  == t4 > f4
      a   == IF cl /\ up THEN BandStep(r0, TRUE, ml) ELSE r0
      b   == IF ch THEN BandStep(a, ~up, mh) ELSE a
      c   == IF cl /\ ~up THEN BandStep(b, FALSE, ml) ELSE b
  IN c

Move(l, q) ==
  LET a     == path[Len(path)]
      s     == Len(path)
      first == s = 1
      f4    == IF first THEN At(a, l, q0) ELSE 4 * a
      t4    == At(a, l, q)
      n1    == See(lo, first, f4, t4, ThrLo, s)
      n2    == See(hi, first, f4, t4, ThrHi, s)
  IN /\ ~done
     /\ (Plateaus \/ l # a)
     /\ s <= NSlots
     /\ (s < NSlots => q = 4)
     /\ IF OnThr THEN ~Touch(lo, first, f4, t4, ThrLo) /\ ~Touch(hi, first, f4, t4, ThrHi) /\ l # a
        ELSE ~On(f4, ThrLo) /\ ~On(f4, ThrHi) /\ ~On(t4, ThrLo) /\ ~On(t4, ThrHi)
     /\ (first /\ s = NSlots) => q > q0
     /\ path' = Append(path, l)
     /\ lo' = n1 /\ hi' = n2
     /\ rng' = SeeBand(rng, first, lo, hi, n1, n2, f4, t4)
     /\ culm' = IF s >= 2 /\ (a - path[s-1]) * (l - a) < 0
                THEN Append(culm, [knot |-> s, max |-> a > l]) ELSE culm
     /\ q1' = q
     /\ UNCHANGED <<q0, cfg, done>>

Finish == /\ Len(path) = NSlots + 1
          /\ ~done
          /\ done' = TRUE
          /\ lo' = Close(lo) /\ hi' = Close(hi)
          /\ rng' = IF rng.side THEN [rng EXCEPT !.per = Append(@, <<rng.open, END>>)] ELSE rng
          /\ UNCHANGED <<path, q0, q1, cfg, culm>>

Next == (\E l \in Levels, q \in Ends \union {4} : Move(l, q)) \/ Finish
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Properties of the design *)
Obs == {lo, hi}
Alternate == \A o \in Obs : Alternates(o)
Partition == done => \A o \in Obs : Tile(o)
RisesOpenAbove == done => \A o \in Obs : RiseOpensAbove(o)
HiInsideLo == (Len(path) > 1 /\ hi.side) => lo.side
BandMeaning == (Len(path) > 1 /\ ~done) => (rng.side <=> (lo.side /\ ~hi.side))
CulmAlternate == Plateaus \/ \A i \in 1..(Len(culm) - 1) : culm[i].max # culm[i+1].max
TypeOK == Len(path) <= NSlots + 1 /\ q1 \in 0..4

HasPlateau == \E i \in 1..(Len(path) - 1) : path[i] = path[i+1]
Emit == done => PrintT("SCN " \o ToJson(
   [path |-> path, q0 |-> q0, q1 |-> q1, cfg |-> cfg, thr |-> <<ThrLo, ThrHi>>,
    lo |-> lo, hi |-> hi, rng |-> rng.per, culm |-> culm, onthr |-> OnThr, plateau |-> HasPlateau]))
=============================================================================

----------------------------- MODULE AltObserver -----------------------------
(* The observer automaton of threshold events: it reacts to crossings and keeps the   *)
(* above/below periods they delimit.  Shared by the design model (AltSearch), the      *)
(* azimuth and illumination models, and the trace specifications.                      *)
(* A period endpoint is START, END, or the ordinal of the crossing that delimits it.   *)
EXTENDS Integers, Sequences, FiniteSets

END == -1
START == 0

Fresh == [side |-> FALSE, cross |-> <<>>, above |-> <<>>, below |-> <<>>, open |-> START]

\* a crossing described by the record info flips the side of the observed body
Flip(o, info) ==
  LET n == Len(o.cross) + 1 IN
  [side  |-> ~o.side,
   cross |-> Append(o.cross, info),
   above |-> IF o.side THEN Append(o.above, <<o.open, n>>) ELSE o.above,
   below |-> IF o.side THEN o.below ELSE Append(o.below, <<o.open, n>>),
   open  |-> n]

\* the window ends
Close(o) == [o EXCEPT !.above = IF o.side THEN Append(@, <<o.open, END>>) ELSE @,
                      !.below = IF o.side THEN @ ELSE Append(@, <<o.open, END>>)]

\* properties of an observer
Alternates(o) == \A i \in 1..(Len(o.cross) - 1) : o.cross[i].up # o.cross[i+1].up
Tile(o) ==
  LET all == {o.above[i] : i \in DOMAIN o.above} \union {o.below[i] : i \in DOMAIN o.below}
  IN /\ Cardinality(all) = Len(o.above) + Len(o.below)
     /\ Cardinality(all) = Len(o.cross) + 1
     /\ \A c \in 1..Len(o.cross) : (\E p \in all : p[2] = c) /\ (\E p \in all : p[1] = c)
     /\ (\E p \in all : p[1] = START) /\ (\E p \in all : p[2] = END)
RiseOpensAbove(o) == \A i \in DOMAIN o.above :
     /\ (o.above[i][1] # START => o.cross[o.above[i][1]].up)
     /\ (o.above[i][2] # END => ~o.cross[o.above[i][2]].up)
=============================================================================

------------------------------ MODULE EopTable ------------------------------
\* A table of Earth orientation, one record a day, with a leap second between two of the days, and
\* what it says at every quarter of a day.  Between records the values run straight; UT1-UTC runs
\* straight in UT1 itself, so that the leap second happens at midnight and not over the day.
\* Lines that are no record say nothing.
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLines, Rates, Leaps, Others
QRates == {-12, 7}
QLeaps == {-1, 0, 1}
VARIABLES doc, days
vars == <<doc, days>>
Second == 10000
Init == doc = <<>> /\ days = <<>>
\* a record: one or two days after the last, UT1 moved by a rate, a leap second (or none) at its midnight
Record(gap, r, l) ==
  LET last == days[Len(days)] IN
  /\ (days = <<>> => gap = 1 /\ l = 0)
  /\ days' = Append(days, IF days = <<>> THEN [d |-> 1, u |-> 3000 * r, w |-> r]
                          ELSE [d |-> last.d + gap, u |-> last.u + r * gap + l * Second, w |-> r])
  /\ doc' = Append(doc, <<"rec", Len(days) + 1>>)
Other(o) == doc' = Append(doc, <<"other", o>>) /\ UNCHANGED days
Next == /\ Len(doc) < MaxLines
        /\ \/ \E gap \in {1, 2}, r \in Rates, l \in Leaps : Record(gap, r, l)
           \/ \E o \in Others : Other(o)
Spec == Init /\ [][Next]_vars
\* the record at or before quarter q (of days), and the value there, times four
At(q) ==
  IF q <= 4 * days[1].d THEN 4 * days[1].u
  ELSE IF q >= 4 * days[Len(days)].d THEN 4 * days[Len(days)].u
  ELSE LET I == {i \in 1 .. Len(days) - 1 : 4 * days[i].d <= q /\ q < 4 * days[i + 1].d}
           i == CHOOSE i \in I : TRUE
           a == days[i]
           b == days[i + 1]
           jump == IF b.u - a.u > Second \div 2 THEN Second ELSE IF a.u - b.u > Second \div 2 THEN -Second ELSE 0
       IN 4 * a.u + ((b.u - jump - a.u) \div (b.d - a.d)) * (q - 4 * a.d)
\* nowhere does UT1-UTC come within a tenth of a second of a value it does not have at a nearby record
Close(x, y) == x - y < Second \div 10 /\ y - x < Second \div 10
NoSmear == days # <<>> => \A q \in 0 .. 4 * days[Len(days)].d : \E i \in DOMAIN days : Close(At(q) \div 4, days[i].u)
Emit == PrintT("SCN " \o ToJson([doc |-> doc, days |-> days,
          want |-> IF days = <<>> THEN <<>> ELSE [q \in 1 .. 4 * days[Len(days)].d + 2 |-> At(q)]]))
=============================================================================

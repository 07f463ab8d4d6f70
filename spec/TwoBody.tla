------------------------------- MODULE TwoBody -------------------------------
\* Round a centre: where a body is on its conic, and where it is next. Every angle is that of a right triangle with whole sides, so that
\* every place is a whole vector over a whole number; only the time between two places is not (the harness takes it from Kepler's equation).
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS Kind, Size
VARIABLES v, log, done
vars == <<v, log, done>>
\* cosine, sine, of
Angles == {<<1, 0, 1>>, <<0, 1, 1>>, <<-1, 0, 1>>, <<0, -1, 1>>, <<3, 4, 5>>, <<-4, 3, 5>>, <<-3, -4, 5>>, <<12, -5, 13>>}
\* also backwards through the equator
Tilts == {<<1, 0, 1>>, <<0, 1, 1>>, <<-1, 0, 1>>, <<3, 4, 5>>, <<-3, 4, 5>>, <<4, -3, 5>>}
\* eccentricity: that over that, and the root of one less its square over the same
Round0 == {<<0, 1, 1>>, <<3, 5, 4>>, <<4, 5, 3>>, <<5, 13, 12>>, <<40, 41, 9>>}
ASSUME \A e \in Round0 : e[1] * e[1] + e[3] * e[3] = e[2] * e[2]
ASSUME \A a \in Angles \cup Tilts : a[1] * a[1] + a[2] * a[2] = a[3] * a[3]
\* eccentric anomalies once round
Turn == << <<1, 0, 1>>, <<12, 5, 13>>, <<4, 3, 5>>, <<3, 4, 5>>, <<0, 1, 1>>, <<-3, 4, 5>>, <<-12, 5, 13>>, <<-1, 0, 1>>, <<-4, -3, 5>>, <<0, -1, 1>>, <<3, -4, 5>>, <<12, -5, 13>> >>
\* in the plane of the orbit, per half long axis: over e[2] E[3]
Flat(e, E) == <<E[1] * e[2] - e[1] * E[3], e[3] * E[2], e[2] * E[3]>>
\* distances to the two foci over the same
Near(e, E) == e[2] * E[3] - e[1] * E[1]
Far(e, E) == e[2] * E[3] + e[1] * E[1]
ASSUME \A e \in Round0, k \in 1..Len(Turn) : LET p == Flat(e, Turn[k]) n == Near(e, Turn[k]) f == Far(e, Turn[k]) x == p[1] + 2 * e[1] * Turn[k][3] IN
         /\ p[1] * p[1] + p[2] * p[2] = n * n /\ x * x + p[2] * p[2] = f * f /\ n + f = 2 * p[3]
\* speed per half long axis and radian of mean anomaly: over Near
Swift(e, E) == <<-E[2] * e[2], e[3] * E[1], Near(e, E)>>
\* what it has of speed and height is always the same, and so is the area it sweeps
ASSUME \A e \in Round0, k \in 1..Len(Turn) : LET p == Flat(e, Turn[k]) s == Swift(e, Turn[k]) IN
         /\ s[1] * s[1] + s[2] * s[2] = s[3] * Far(e, Turn[k])
         /\ p[1] * s[2] - p[2] * s[1] = e[3] * Turn[k][3] * s[3]
\* from the plane of the orbit into space: by argument of the periapsis, tilt and node
Turned(p, i, om, w) ==
  LET x == w[1] * p[1] - w[2] * p[2] y == w[2] * p[1] + w[1] * p[2] a == x * i[3] b == y * i[1]
  IN <<om[1] * a - om[2] * b, om[2] * a + om[1] * b, y * i[2] * om[3], p[3] * w[3] * i[3] * om[3]>>
Unit(k) == IF k = 1 THEN <<1, 0, 1>> ELSE <<0, 1, 1>>
ASSUME \A i \in Tilts, om \in Angles, w \in Angles : LET a == Turned(Unit(1), i, om, w) b == Turned(Unit(2), i, om, w) IN
         /\ a[1] * a[1] + a[2] * a[2] + a[3] * a[3] = a[4] * a[4] /\ b[1] * b[1] + b[2] * b[2] + b[3] * b[3] = b[4] * b[4] /\ a[1] * b[1] + a[2] * b[2] + a[3] * b[3] = 0
Ellipse(e, i, om, w) == [e |-> e, i |-> i, node |-> om, peri |-> w, at |-> [k \in 1..Len(Turn) |-> [E |-> Turn[k], p |-> Turned(Flat(e, Turn[k]), i, om, w)]]]

\* nearly straight orbits, near the ends
Long0 == {<<4900, 4901, 99>>, <<39999, 40001, 400>>, <<24, 25, 7>>, <<0, 1, 1>>}
Steep == << <<899, 60, 901>>, <<-899, 60, 901>>, <<899, -60, 901>>, <<-899, -60, 901>>, <<1599, 80, 1601>>, <<-1599, -80, 1601>>, <<1, 0, 1>>, <<-1, 0, 1>>, <<0, 1, 1>>, <<60, 899, 901>> >>
Long(e) == [e |-> e, i |-> <<1, 0, 1>>, node |-> <<1, 0, 1>>, peri |-> <<1, 0, 1>>, at |-> [k \in 1..Len(Steep) |-> [E |-> Steep[k], p |-> Turned(Flat(e, Steep[k]), <<1, 0, 1>>, <<1, 0, 1>>, <<1, 0, 1>>)]]]

(* past the centre and away: the anomaly is the logarithm of u over w *)
Open == {<<5, 4, 3>>, <<5, 3, 4>>, <<13, 5, 12>>, <<41, 9, 40>>, <<101, 99, 20>>}
ASSUME \A e \in Open : e[1] * e[1] - e[2] * e[2] = e[3] * e[3]
Arms == << <<1, 1>>, <<2, 1>>, <<1, 2>>, <<3, 2>>, <<1, 3>>, <<10, 1>>, <<1, 10>>, <<30, 1>>, <<1, 30>> >>
Arm(e, h) == <<2 * h[1] * h[2] * e[1] - e[2] * (h[1] * h[1] + h[2] * h[2]), e[3] * (h[1] * h[1] - h[2] * h[2]), 2 * e[2] * h[1] * h[2]>>
ASSUME \A e \in Open : e[1] < 100 => \A k \in 1..6 : LET p == Arm(e, Arms[k]) h == Arms[k] r == e[1] * (h[1] * h[1] + h[2] * h[2]) - p[3] IN p[1] * p[1] + p[2] * p[2] = r * r
Hyperbola(e, i, om, w) == [e |-> e, i |-> i, node |-> om, peri |-> w, at |-> [k \in 1..Len(Arms) |-> [H |-> Arms[k], p |-> Turned(Arm(e, Arms[k]), i, om, w)]]]

(* what is no orbit *)
Sizes == {"ok", "zero", "neg", "nan", "inf"}
Shapes == {"circle", "half", "neg", "one", "over", "nan", "inf"}
Ways == {"ok", "nan", "inf"}
Motions == {"ok", "zero", "neg", "nan", "inf"}
Refuse(kind, q, e, i, om, w, m) ==
  LET shape == IF e \in {"neg", "nan", "inf"} THEN {"InvalidEccentricity"} ELSE IF e \in {"circle", "half"} THEN {} ELSE
               IF e = "one" THEN {IF kind = "conic" THEN "ParabolicUnsupported" ELSE "ParabolicSemiMajorAxis"} ELSE IF kind = "conic" THEN {} ELSE {"HyperbolicNotSupported"}
      size == IF q = "ok" THEN {} ELSE {IF kind = "conic" THEN "InvalidPeriapsisDistance" ELSE "InvalidSemiMajorAxis"}
      way == IF i = "ok" /\ om = "ok" /\ w = "ok" THEN {} ELSE {"InvalidOrientation"}
      motion == IF m = "ok" THEN {} ELSE IF kind = "mean" THEN {"InvalidMeanMotion"} ELSE IF m \in {"nan", "inf"} THEN {"InvalidMeanAnomaly"} ELSE {}
  IN [kind |-> kind, q |-> q, e |-> e, i |-> i, node |-> om, peri |-> w, m |-> m, why |-> SetToSeq(shape \cup size \cup way \cup motion)]

(* a satellite on its way: legs forwards and backwards *)
Ships == {<<0, 1, 1>>, <<3, 5, 4>>, <<5, 13, 12>>}
Stops == << <<1, 0, 1>>, <<3, 4, 5>>, <<-3, 4, 5>>, <<-1, 0, 1>>, <<0, -1, 1>>, <<12, -5, 13>> >>
Planes == {<< <<1, 0, 1>>, <<1, 0, 1>>, <<1, 0, 1>> >>, << <<3, 4, 5>>, <<-4, 3, 5>>, <<0, 1, 1>> >>}
Seen(s) == [k \in 1..Len(Stops) |-> [E |-> Stops[k], p |-> Turned(Flat(s.e, Stops[k]), s.w[1], s.w[2], s.w[3]), s |-> Turned(Swift(s.e, Stops[k]), s.w[1], s.w[2], s.w[3])]]
\* position along the way: k'th stop of revolution n
Fly == /\ Len(log) < Size
       /\ \E k \in 1..Len(Stops), n \in -1..1 : /\ log = <<>> => n = 0
                                               /\ log' = Append(log, [k |-> k, n |-> n])
       /\ UNCHANGED <<v, done>>
Ended == Len(log) = Size
\* as many half hours as there are stops: the body passes the distance whose anomaly has cosine 5/13 between the second and the third stop
\* outwards and between the fifth and the sixth inwards; backwards the other way round
Hour(x) == Len(Stops) * x.n + x.k
Gate(h) == LET m == ((h - 1) % Len(Stops)) + 1 IN IF m = 2 THEN 1 ELSE IF m = 5 THEN -1 ELSE 0
Passed(a, b) == LET up == Hour(b) > Hour(a)
                    hs == IF up THEN [j \in 1..(Hour(b) - Hour(a)) |-> Hour(a) + j - 1] ELSE [j \in 1..(Hour(a) - Hour(b)) |-> Hour(a) - j]
                    all == [j \in 1..Len(hs) |-> [n |-> ((hs[j] - 1) - ((hs[j] - 1) % Len(Stops))) \div Len(Stops), out |-> Gate(hs[j]), rising |-> Gate(hs[j]) * (IF up THEN 1 ELSE -1)]]
                IN SelectSeq(all, LAMBDA x : x.out # 0)
\* there and back it passes as often, the other way round; every revolution twice more
ASSUME \A k, l \in 1..Len(Stops), n \in -1..1 : LET a == [k |-> k, n |-> 0] b == [k |-> l, n |-> n] there == Passed(a, b) back == Passed(b, a) IN
         /\ Len(there) = Len(back) /\ \A j \in 1..Len(there) : there[j].n = back[Len(there) + 1 - j].n /\ there[j].out = back[Len(there) + 1 - j].out /\ there[j].rising = -back[Len(there) + 1 - j].rising
         /\ Hour(b) >= Hour(a) => Len(Passed(a, [b EXCEPT !.n = n + 1])) = Len(there) + 2
Gates(legs) == [j \in 1..(Len(legs) - 1) |-> Passed(legs[j], legs[j + 1])]

Cases == CASE Kind = "ellipse" -> {[k |-> "ellipse", s |-> Ellipse(e, i, om, w)] : e \in Round0, i \in Tilts, om \in Angles, w \in Angles}
           [] Kind = "long" -> {[k |-> "long", s |-> Long(e)] : e \in Long0}
           [] Kind = "hyperbola" -> {[k |-> "hyperbola", s |-> Hyperbola(e, i, om, w)] : e \in Open, i \in Tilts, om \in Angles, w \in Angles}
           [] Kind = "refuse" -> {[k |-> "refuse", s |-> Refuse(k, q, e, i, om, w, m)] : k \in {"kepler", "conic", "mean"}, q \in Sizes, e \in Shapes, i \in Ways, om \in Ways, w \in Ways, m \in Motions}
           [] OTHER -> {[k |-> "fly", s |-> [e |-> e, w |-> w]] : e \in Ships, w \in Planes}
Init == v = [k |-> "none"] /\ log = <<>> /\ done = FALSE
Next == \/ v.k = "none" /\ v' \in Cases /\ UNCHANGED <<log, done>>
        \/ v.k = "fly" /\ ~done /\ ~Ended /\ Fly
        \/ v.k # "none" /\ (v.k = "fly" => Ended) /\ ~done /\ done' = TRUE /\ UNCHANGED <<v, log>>
Spec == Init /\ [][Next]_vars
Out == IF v.k = "fly" THEN [k |-> "fly", s |-> [e |-> v.s.e, way |-> v.s.w, at |-> Seen(v.s), legs |-> log, gates |-> Gates(log)]] ELSE v
Emit == done => PrintT("SCN " \o ToJson(Out))
=============================================================================

----------------------------- MODULE ForceModel -----------------------------
\* What pulls and pushes a satellite. Positions are whole vectors of whole length (thousands of km), so that every acceleration is a
\* whole vector over a power of that length; a model is the sum of its terms, and each needs what it needs of its surroundings.
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS Kind, Size
VARIABLES v, log, done
vars == <<v, log, done>>
Abs(n) == IF n < 0 THEN -n ELSE n
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Minus(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
\* x, y, z, length
Places == {<<7, 0, 0, 7>>, <<0, -7, 0, 7>>, <<2, 3, 6, 7>>, <<-3, 6, 2, 7>>, <<6, -2, -3, 7>>, <<4, 4, -7, 9>>, <<-8, -4, 1, 9>>, <<-6, 0, 8, 10>>, <<6, 9, 2, 11>>, <<2, -6, -9, 11>>, <<-7, 6, -6, 11>>}
Poles == {<<0, 0, 8, 8>>, <<0, 0, -7, 7>>}
ASSUME \A p \in Places \cup Poles : Dot(p, p) = p[4] * p[4]
(* the field of the Earth, in its own axes: the potential of a harmonic is a polynomial over the length to 2n+1 *)
Field == <<
  <<2, 0, "c", 2>>, <<2, 1, "c", 1>>, <<2, 1, "s", 1>>, <<2, 2, "c", 1>>, <<2, 2, "s", 1>>,
  <<3, 0, "c", 2>>, <<3, 1, "c", 2>>, <<3, 1, "s", 2>>, <<3, 2, "c", 1>>, <<3, 2, "s", 1>>, <<3, 3, "c", 1>>, <<3, 3, "s", 1>>,
  <<4, 0, "c", 8>>, <<4, 1, "c", 2>>, <<4, 1, "s", 2>>, <<4, 2, "c", 2>>, <<4, 2, "s", 2>>, <<4, 3, "c", 1>>, <<4, 3, "s", 1>>, <<4, 4, "c", 1>>, <<4, 4, "s", 1>> >>
Poly(h, x, y, z) ==
  LET n == h[1] m == h[2] c == h[3] = "c" w == x * x + y * y
      re(k) == CASE k = 0 -> 1 [] k = 1 -> x [] k = 2 -> x * x - y * y [] k = 3 -> x * x * x - 3 * x * y * y [] OTHER -> x * x * x * x - 6 * x * x * y * y + y * y * y * y
      im(k) == CASE k = 0 -> 0 [] k = 1 -> y [] k = 2 -> 2 * x * y [] k = 3 -> 3 * x * x * y - y * y * y [] OTHER -> 4 * x * x * x * y - 4 * x * y * y * y
      up == CASE n = 2 /\ m = 0 -> 2 * z * z - w [] n = 2 /\ m = 1 -> 3 * z [] n = 2 -> 3
              [] n = 3 /\ m = 0 -> z * (2 * z * z - 3 * w) [] n = 3 /\ m = 1 -> 3 * (4 * z * z - w) [] n = 3 /\ m = 2 -> 15 * z [] n = 3 -> 15
              [] m = 0 -> 8 * z * z * z * z - 24 * z * z * w + 3 * w * w [] m = 1 -> 5 * z * (4 * z * z - 3 * w) [] m = 2 -> 15 * (6 * z * z - w) [] m = 3 -> 105 * z [] OTHER -> 105
  IN up * (IF c THEN re(m) ELSE im(m))
\* exact for polynomials of this degree
Deriv(f(_), k) == LET s == 8 * (f(1) - f(-1)) - (f(2) - f(-2)) IN s \div 12
Second(f(_)) == 16 * (f(1) + f(-1)) - 30 * f(0) - f(2) - f(-2)
Grad(h, p) == LET x(k) == Poly(h, p[1] + k, p[2], p[3]) y(k) == Poly(h, p[1], p[2] + k, p[3]) z(k) == Poly(h, p[1], p[2], p[3] + k)
              IN <<Deriv(x, 1), Deriv(y, 1), Deriv(z, 1)>>
ASSUME \A j \in 1..Len(Field), p \in Places \cup Poles : LET h == Field[j] IN
         /\ Dot(Grad(h, p), p) = h[1] * Poly(h, p[1], p[2], p[3])
         /\ LET x(k) == Poly(h, p[1] + k, p[2], p[3]) y(k) == Poly(h, p[1], p[2] + k, p[3]) z(k) == Poly(h, p[1], p[2], p[3] + k) IN Second(x) + Second(y) + Second(z) = 0
\* over the length to 2n+3
Pull(h, p) == LET g == Grad(h, p) f == Poly(h, p[1], p[2], p[3]) r2 == p[4] * p[4] a(k) == g[k] * r2 - (2 * h[1] + 1) * p[k] * f IN <<a(1), a(2), a(3)>>
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
\* the square of what a coefficient is divided by to be a normalized one
Unit(h) == <<(IF h[2] = 0 THEN 1 ELSE 2) * (2 * h[1] + 1) * Fact(h[1] - h[2]), Fact(h[1] + h[2])>>
Gravity(p) == [r |-> p, pull |-> [j \in 1..Len(Field) |-> [n |-> Field[j][1], m |-> Field[j][2], c |-> Field[j][3], over |-> Field[j][4], a |-> Pull(Field[j], p), unit |-> Unit(Field[j])]]]

(* the Sun and the Moon *)
Bodies3 == {<<20, 0, 0, 20>>, <<-6, 27, 18, 33>>, <<14, -42, -63, 77>>, <<0, -21, 28, 35>>, <<-120, 90, 0, 150>>, <<-40, -60, -120, 140>>, <<200, -300, 600, 700>>}
ASSUME \A p \in Bodies3 : Dot(p, p) = p[4] * p[4]
Third(p, q) == [r |-> p, b |-> q, way |-> Minus(q, p), d2 |-> Dot(Minus(q, p), Minus(q, p)), b2 |-> q[4] * q[4]]
\* the square of the radius of the Earth is 40.68 square thousands of km: 1 behind it, 0 too near to tell, -1 not
Behind(p, q) == LET k == Dot(p, q) q2 == q[4] * q[4] w == p[4] * p[4] * q2 - k * k
                    whole == w \div q2 rest == w % q2
                IN IF k >= 0 \/ whole > 40 THEN -1 ELSE IF whole < 40 \/ 100 * rest < 68 * q2 THEN 1 ELSE IF 100 * rest > 69 * q2 THEN -1 ELSE 0
Shade(p, q) == [r |-> p, b |-> q, behind |-> Behind(p, q)]

\* seen from the satellite, the Sun is j eighths of the two radii away from the Earth; how large they are: the Earth of p, the Sun as far as far
Cone(p, j, far, side) == [r |-> p, j |-> j, far |-> far, side |-> side]

(* the air, and what is small *)
Speeds == {<<0, 0, 0>>, <<1, 2, -2>>, <<0, 7, 0>>, <<-4, 0, 3>>, <<6, -2, 3>>, <<0, 0, -7>>, <<-3, 2, 0>>, <<2, 3, 6>>}
\* the air turns once in 2 pi thousand seconds
Drag(p, w) == [r |-> p, v |-> w, air |-> <<w[1] + p[2], w[2] - p[1], w[3]>>]
Small(p, w) == [r |-> p, v |-> w, v2 |-> Dot(w, w), rv |-> Dot(p, w), n |-> Cross(p, w), t |-> Cross(Cross(p, w), p)]
Wave(k) == <<IF k = 0 THEN 1 ELSE IF k = 2 THEN -1 ELSE 0, IF k = 1 THEN 1 ELSE IF k = 3 THEN -1 ELSE 0>>
Periodic(k, h) == [k |-> k, h |-> h, wave |-> Wave((k * h) % 4), r |-> <<2, 3, 6, 7>>, v |-> <<-3, 2, 0>>]
\* sine and cosine of the latitude, over the third
Angles == {<<0, 1, 1>>, <<3, 4, 5>>, <<-4, 3, 5>>, <<5, 12, 13>>, <<1, 0, 1>>, <<-1, 0, 1>>, <<-99, 20, 101>>}
High(a, l, h) == [a |-> a, lon |-> l, h |-> h]

(* a model is made of terms *)
Terms == <<"two_body", "j2", "geopotential", "third_body_sun", "third_body_moon", "drag", "srp_cannonball", "relativity", "empirical_constant", "empirical_1cpr", "empirical_2cpr">>
NeedOf(t) == CASE t = "geopotential" -> {"gravity"} [] t \in {"third_body_sun", "third_body_moon", "srp_cannonball", "third_body_sun_moon"} -> {"ephemeris"} [] t = "drag" -> {"atmosphere"} [] OTHER -> {}
Given == {"gravity", "ephemeris", "atmosphere"}
Chosen(s) == SelectSeq(Terms, LAMBDA t : t \in s)
Model(s, g) == LET c == Chosen(s) IN
  [terms |-> c, given |-> SetToSeq(g), works |-> \A t \in s : NeedOf(t) \subseteq g,
   central |-> IF s \cap {"two_body", "geopotential"} = {} THEN 0 ELSE 1,
   flat |-> IF s \cap {"j2", "geopotential"} = {} THEN 0 ELSE 1]
Within(s) == Cardinality(s) <= Size \/ Cardinality(s) >= Len(Terms) - 1

(* registries: a name is made by what was last put there *)
Asked == {<<"two_body", "none">>, <<"j2", "other">>, <<"drag", "own">>, <<"drag", "none">>, <<"geopotential", "other">>, <<"empirical_1cpr", "own">>, <<"empirical_1cpr", "half">>, <<"empirical_2cpr", "own">>, <<"empirical_2cpr", "half">>,
          <<"mine", "none">>, <<"srp_cannonball", "own">>, <<"srp_cannonball", "none">>, <<"empirical_constant", "own">>, <<"empirical_constant", "other">>, <<"Two_Body", "none">>, <<"", "none">>, <<"third_body_sun_moon", "none">>}
Picky == {"geopotential", "drag", "srp_cannonball", "empirical_constant", "empirical_1cpr", "empirical_2cpr"}
Builtin == {Terms[k] : k \in 1..Len(Terms)} \cup {"third_body_sun_moon"}
\* 0: not there; 1: as it came; more: what was put there then
Holds(l, n) == LET at == {k \in 1..Len(l) : l[k].op = "put" /\ l[k].name = n}
               IN IF at # {} THEN 1 + (CHOOSE k \in at : \A j \in at : j <= k) ELSE IF l[1].op = "all" /\ n \in Builtin THEN 1 ELSE 0
Answer(l, q) == LET h == Holds(l, q[1]) IN IF h = 0 THEN "unknown" ELSE IF h = 1 /\ q[1] \in Picky /\ q[2] # "own" THEN "invalid" ELSE "made"
Build(l, qs) == LET bad == {k \in 1..Len(qs) : Answer(l, qs[k]) # "made"} first == CHOOSE k \in bad : \A j \in bad : k <= j
                IN [op |-> "build", asked |-> qs, by |-> [k \in 1..Len(qs) |-> Holds(l, qs[k][1])],
                    is |-> IF bad = {} THEN "made" ELSE Answer(l, qs[first]), who |-> IF bad = {} THEN "" ELSE qs[first][1]]
Names(l) == Cardinality({n \in Builtin \cup {"mine"} : Holds(l, n) > 0})

\* ------------------------------------------------------------------ behaviours
Init == /\ log = IF Kind = "registry" THEN <<>> ELSE <<0>>
        /\ done = (Kind # "registry")
        /\ CASE Kind = "gravity" -> v \in {Gravity(p) : p \in Places \cup Poles}
             [] Kind = "third" -> v \in {Third(p, q) : p \in Places \cup Poles, q \in Bodies3}
             [] Kind = "shade" -> v \in {Shade(p, q) : p \in Places \cup Poles, q \in Bodies3}
             [] Kind = "cone" -> v \in {Cone(p, j, f, d) : p \in {<<2, 3, 6, 7>>, <<-8, 16, 16, 24>>, <<0, -48, 64, 80>>, <<240, -360, 720, 840>>}, j \in 0..10, f \in {2, 20, 150}, d \in 0..3}
             [] Kind = "drag" -> v \in {Drag(p, w) : p \in Places \cup Poles, w \in Speeds \cup {<<-p[2], p[1], 0>> : p \in Places}}
             [] Kind = "small" -> v \in {Small(p, w) : p \in Places \cup Poles, w \in Speeds \cup {<<p[1], p[2], p[3]>> : p \in Places}}
             [] Kind = "periodic" -> v \in {Periodic(k, h) : k \in -Size..Size, h \in {1, 2}}
             [] Kind = "high" -> v \in {High(a, l, h) : a \in Angles, l \in {<<0, 1, 1>>, <<3, -4, 5>>}, h \in {-5, -1, 0, 1, 120, 500, 36000}}
             [] Kind = "sum" -> v \in {Model(s, g) : s \in {t \in SUBSET {Terms[k] : k \in 1..Len(Terms)} : Within(t)}, g \in SUBSET Given}
             [] OTHER -> v = [n |-> 0]
Put(n) == log' = Append(log, [op |-> "put", name |-> n])
Start == log = <<>> /\ \E o \in {"all", "none"} : log' = <<[op |-> o, name |-> ""]>>
Step == /\ Kind = "registry" /\ ~done /\ UNCHANGED v
        /\ \/ Start /\ UNCHANGED done
           \/ log # <<>> /\ Len(log) < Size /\ UNCHANGED done /\ \E n \in {"mine", "two_body"} : Put(n)
           \/ log # <<>> /\ done' = TRUE /\ \E q \in Asked, q2 \in Asked \cup {<<"-", "-">>} : log' = Append(log, Build(log, IF q2[1] = "-" THEN <<q>> ELSE <<q, q2>>))
Next == Step
Spec == Init /\ [][Next]_vars
\* ------------------------------------------------------------------ what is so
\* a field is pulled down along the axis and is as strong each way round
Downward == Kind = "gravity" => \A j \in 1..Len(Field) : LET h == Field[j] IN Dot(v.pull[j].a, v.r) = -(h[1] + 1) * Poly(h, v.r[1], v.r[2], v.r[3]) * v.r[4] * v.r[4]
\* one who goes with the air feels none; nothing in front of the Sun is in the dark
Still == Kind = "drag" => ((v.air = <<0, 0, 0>>) <=> (v.v = <<-v.r[2], v.r[1], 0>>))
Light == Kind = "shade" => (Dot(v.r, v.b) >= 0 => v.behind = -1)
\* along, across and up are square to each other
Square == Kind = "small" => Dot(v.n, v.r) = 0 /\ Dot(v.t, v.r) = 0 /\ Dot(v.n, v.t) = 0 /\ (v.n # <<0, 0, 0>> => Dot(v.t, v.v) > 0)
\* nothing pulls twice, and what is given besides makes no difference
Once == Kind = "sum" => v.central <= 1 /\ v.flat <= 1 /\ (v.works <=> \A k \in 1..Len(v.terms) : NeedOf(v.terms[k]) \subseteq {v.given[j] : j \in 1..Len(v.given)})
Named == Kind = "registry" /\ done => LET l == log[Len(log)] IN (l.is = "made") = (l.who = "" /\ \A k \in 1..Len(l.asked) : l.by[k] > 0 /\ (l.by[k] = 1 /\ l.asked[k][1] \in Picky => l.asked[k][2] = "own"))
Emit == done => PrintT("SCN " \o ToJson([mode |-> Kind, v |-> v, log |-> log]))
=============================================================================

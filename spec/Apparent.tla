------------------------------ MODULE Apparent ------------------------------
\* Where a source seems to be. Velocities are Pythagorean fractions of that of light and directions Pythagorean triples, so the
\* direction a moving observer sees is again a whole vector of whole length, and the addition of velocities is exact. Light bent by
\* a body, stars carried along by their motion, and the corrections that were asked for, are told in whole numbers as well.
EXTENDS FrameWords, SequencesExt
CONSTANTS Kind, Size
VARIABLES start, steps, at, done
vars == <<start, steps, at, done>>
Abs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Least(v) == LET g == Gcd(Gcd(Gcd(Abs(v[4]), Abs(v[1])), Abs(v[2])), Abs(v[3])) IN <<v[1] \div g, v[2] \div g, v[3] \div g, v[4] \div g>>
Dot(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
\* x, y, z and length
Dirs == {<<1, 0, 0, 1>>, <<-1, 0, 0, 1>>, <<0, 1, 0, 1>>, <<0, -1, 0, 1>>, <<0, 0, 1, 1>>, <<0, 0, -1, 1>>, <<3, 4, 0, 5>>, <<0, -4, 3, 5>>, <<2, -1, 2, 3>>, <<-2, -2, 1, 3>>, <<6, 2, -3, 7>>}
Few == {<<1, 0, 0, 1>>, <<0, 0, -1, 1>>, <<-3, 0, 4, 5>>, <<2, -1, 2, 3>>}
\* the speed s/t of light's, with t^2 = s^2 + r^2
Speeds == {<<0, 1, 1>>, <<3, 5, 4>>, <<4, 5, 3>>, <<5, 13, 12>>, <<20, 101, 99>>, <<60, 901, 899>>}
Slow == {<<3, 5, 4>>, <<5, 13, 12>>}
\* the direction seen by one who moves with s/t towards b
Seen(u, sp, b) ==
  LET s == sp[1] t == sp[2] r == sp[3] e == b[4] d == u[4] k == Dot(u, b)
      along == s * (d * e * (t + r) + s * k)
      f(n) == r * (t + r) * e * e * u[n] + along * b[n]
  IN Least(<<f(1), f(2), f(3), (t + r) * e * (t * e * d + s * k)>>)
Back(b) == <<-b[1], -b[2], -b[3], b[4]>>
\* one behind the other
Sum(p, q) == LET g == Gcd(p[2] * q[2] + p[1] * q[1], p[1] * q[2] + q[1] * p[2])
             IN <<(p[1] * q[2] + q[1] * p[2]) \div g, (p[2] * q[2] + p[1] * q[1]) \div g, (p[3] * q[3]) \div g>>
ASSUME \A u \in Dirs, b \in Few, p \in Slow, q \in Slow : Seen(Seen(u, p, b), q, b) = Seen(u, Sum(p, q), b)
ASSUME \A u \in Dirs, b \in Few, p \in Slow : Seen(Seen(u, p, b), p, Back(b)) = u
\* nobody who moves towards a source sees it elsewhere; everything else comes nearer to where he moves
ASSUME \A u \in Dirs, b \in Dirs, p \in Speeds : LET w == Seen(u, p, b) IN
         /\ (u = b \/ u = Back(b)) => w = u
         /\ (u # b /\ u # Back(b) /\ p[1] > 0) => Dot(w, b) * u[4] > Dot(u, b) * w[4]
\* light bent by a body that is the other way from q, r = rn/rd of its distance its Schwarzschild radius; direction, of any length
Bent(s, q, r) == LET k == Dot(s, q) d == s[4] e == q[4]
                     f(n) == s[n] * r[2] * (d * e + k) + r[1] * (d * d * q[n] - k * s[n])
                 IN IF d * e + k = 0 \/ r[1] = 0 THEN <<s[1], s[2], s[3]>> ELSE <<f(1), f(2), f(3)>>
\* cot of half the elongation times the radius: what is across is to what is along as that
ASSUME \A s \in Dirs, q \in Dirs : LET k == Dot(s, q) d == s[4] e == q[4]
         IN Dot([n \in 1 .. 3 |-> d * d * q[n] - k * s[n]], [n \in 1 .. 3 |-> d * d * q[n] - k * s[n]]) = d * d * (d * d * e * e - k * k)
Radii == {<<0, 1>>, <<1, 10>>, <<1, 4>>, <<1, 1000>>, <<1, 100000>>}
\* right ascension and declination in degrees, over the pole if it must be
Fold(ra, dec) == LET m == dec % 360
                 IN IF m <= 90 THEN <<ra % 360, m>> ELSE IF m <= 270 THEN <<(ra + 180) % 360, 180 - m>> ELSE <<ra % 360, m - 360>>
Places == {<<0, 0>>, <<350, 60>>, <<10, -60>>, <<180, 85>>, <<270, 90>>, <<90, -90>>, <<123, -89>>}
Rates == {<<0, 0>>, <<15, 0>>, <<-7, 3>>, <<0, -20>>, <<40, 31>>}
Epochs == {-50, 0, 16}
\* a star in space: where it is and how far it goes in a century
Stars == {<<<<60000, 80000, 0>>, <<-12, 9, 30>>>>, <<<<-30000, 0, 40000>>, <<0, 100, -200>>>>, <<<<0, -80000, -60000>>, <<0, 160, 120>>>>, <<<<1, 0, 90000>>, <<-2, 3, 0>>>>, <<<<0, 100000, 0>>, <<0, -900, 0>>>>,
          <<<<20000, -10000, 20000>>, <<-150, 75, -150>>>>, <<<<7000, 1000, -5000>>, <<0, 0, 0>>>>, <<<<0, 0, 50000>>, <<10, 20, 30>>>>, <<<<30000, 40000, -50000>>, <<-301, -401, 500>>>>}
Spans == {-20, 1, 30, 100}
Stages == <<"PROPER_MOTION", "LIGHT_TIME", "ABERRATION", "LIGHT_DEFLECTION">>
Sets == SUBSET {1, 2, 3, 4}
Code(S) == (IF 1 \in S THEN 1 ELSE 0) + (IF 2 \in S THEN 2 ELSE 0) + (IF 3 \in S THEN 4 ELSE 0) + (IF 4 \in S THEN 8 ELSE 0)
Frames3 == <<"EquatorialMeanJ2000", "ICRS", "EclipticMeanJ2000">>
Starts == CASE Kind = "moving" -> {[u |-> u] : u \in IF Size = 1 THEN Dirs ELSE Few}
            [] Kind = "bend" -> {[s |-> s, q |-> q, far |-> far, r |-> r, v |-> Bent(s, q, r)] : s \in Dirs, q \in Dirs, far \in {1, 5}, r \in Radii}
            [] Kind = "linear" -> {[place |-> p, rate |-> r, years |-> y, epoch |-> e, star |-> c, to |-> Fold(p[1] + y * r[1], p[2] + y * r[2])] :
                                     p \in Places, r \in Rates, y \in {-12, -1, 0, 1, 7}, e \in Epochs, c \in BOOLEAN}
            [] Kind = "space" -> {[star |-> s, epoch |-> e] : s \in Stars, e \in Epochs}
            [] Kind = "policy" -> {[asked |-> Code(S)] : S \in Sets}
            [] Kind = "observer" -> {[site |-> n, epoch |-> e] : n \in 0 .. 4, e \in 1 .. 5}
Init == /\ start \in Starts /\ steps = <<>> /\ done = FALSE
        /\ at = CASE Kind = "moving" -> start.u [] Kind = "space" -> start.star[1] [] OTHER -> {}
Moves == /\ Kind = "moving" /\ at[4] < 3000
         /\ \E sp \in (IF Size = 1 THEN Speeds ELSE Slow), b \in (IF Size = 1 THEN Dirs ELSE Few), m \in {"apply", "remove"} :
              LET w == Seen(at, sp, IF m = "apply" THEN b ELSE Back(b))
              IN at' = w /\ steps' = Append(steps, [means |-> m, speed |-> sp, towards |-> b, to |-> w])
Goes == /\ Kind = "space"
        /\ \E y \in Spans : LET p == [k \in 1 .. 3 |-> at[k] + y * start.star[2][k]] IN at' = p /\ steps' = Append(steps, [centuries |-> y, to |-> p])
Records == /\ Kind = "policy" /\ \E S \in Sets : at' = at \cup S /\ steps' = Append(steps, [stage |-> Code(S), applied |-> Code(at \cup S),
                                                       within |-> [n \in 1 .. 16 |-> \A T \in Sets : Code(T) = n - 1 => T \subseteq at \cup S]])
Full == \/ Kind \in {"bend", "linear", "observer"} \/ Len(steps) = Size \/ (Kind = "moving" /\ at[4] >= 3000)
Next == \/ ~done /\ ~Full /\ (Moves \/ Goes \/ Records) /\ UNCHANGED <<start, done>>
        \/ ~done /\ Full /\ done' = TRUE /\ UNCHANGED <<start, steps, at>>
Spec == Init /\ [][Next]_vars
\* a direction stays one
Whole == Kind = "moving" /\ at[4] < 40000 => Dot(at, at) = at[4] * at[4] /\ at[4] > 0
\* a star goes straight on, whatever it stops at on the way
Straight == Kind = "space" => at = [k \in 1 .. 3 |-> start.star[1][k] + FoldSeq(LAMBDA s, n : n + s.centuries, 0, steps) * start.star[2][k]]
\* what bends lies off the line of sight, and bends away
Away == Kind = "bend" => LET v == start.v s == start.s q == start.q
                              across == {<<v[2] * s[3] - v[3] * s[2], v[3] * s[1] - v[1] * s[3], v[1] * s[2] - v[2] * s[1]>>}
                         IN /\ Dot(v, s) > 0
                            /\ across = {<<0, 0, 0>>} <=> (start.r[1] = 0 \/ Abs(Dot(s, q)) = s[4] * q[4])
\* places stay on the sphere
Sphere == Kind = "linear" => LET p == start.to IN p[1] \in 0 .. 359 /\ p[2] \in -90 .. 90
Emit == done => PrintT("SCN " \o ToJson([kind |-> Kind, start |-> start, steps |-> steps, stages |-> Stages,
           words |-> [j |-> Between("EquatorialMeanJ2000", "EquatorialMeanJ2000"), i |-> Between("EquatorialMeanJ2000", "ICRS"), e |-> Between("EquatorialMeanJ2000", "EclipticMeanJ2000"),
                      g |-> Between("EclipticMeanJ2000", "ECEF"), q |-> Between("EclipticMeanJ2000", "EquatorialMeanJ2000")]]))
=============================================================================

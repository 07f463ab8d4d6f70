----------------------------- MODULE MissionGeo -----------------------------
\* The geometry of missions: what stands between two points, whose shadow a satellite is in, what a terrain mask hides, where
\* a site sees a target, what the Sun's place says about an orbit, and the registry that names sites and instruments.
\* Everything is decided in integers.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode, Size
VARIABLES x, done
vars == <<x, done>>
Abs(n) == IF n < 0 THEN -n ELSE n
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Grid(n) == (-n .. n) \X (-n .. n) \X (-n .. n)
\* ---- los: does the segment from a to b come nearer to the origin than r? -----------------------------------------
Nearest(a, b, r) == LET d == Sub(b, a)  p == Dot(a, d)  l == Dot(d, d) IN
    \* the sign of (nearest distance squared minus r squared), scaled by a positive number
    IF l = 0 \/ p >= 0 THEN Dot(a, a) - r * r
    ELSE IF p + l <= 0 THEN Dot(b, b) - r * r
    ELSE Dot(a, a) * l - p * p - r * r * l
\* ---- shadow: the Sun of radius 11 (76) at distance 25 (1105) from an occulter of radius 4 (29); the tangents common to both
\* spheres have rational directions, so the shadow cones are exact. The satellite is `back` behind the occulter, `off` aside.
Sky == <<[sun |-> 11, occ |-> 4, dist |-> 25, us |-> 7, uc |-> 24, ps |-> 15, pc |-> 20], [sun |-> 76, occ |-> 29, dist |-> 1105, us |-> 47, uc |-> 1104, ps |-> 105, pc |-> 1100]>>
\* distances to the two cones, positive outside
Umbral(k, back, off) == k.us * back + k.uc * off - k.occ * k.dist
Penumbral(k, back, off) == k.pc * off - k.ps * back - k.occ * k.dist
Backs(k) == {k.occ + 1, k.occ + 2, 2 * k.occ, 3 * k.occ + 1, 5 * k.occ, 10 * k.occ, 23 * k.occ + 5, 40 * k.occ}
Offs(k) == {0, 1, 2} \cup {k.occ - 1, k.occ, k.occ + 1, 2 * k.occ, 5 * k.occ, 20 * k.occ} \cup {k.occ + (k.ps * b) \div k.pc + d : b \in Backs(k), d \in {-1, 0, 1, 2}} \cup {Abs(k.occ - (k.us * b) \div k.uc) + d : b \in Backs(k), d \in {0, 1, 2}}
State(k, back, off) == IF back < 0 THEN "Sunlight"
                       ELSE IF Penumbral(k, back, off) > 0 THEN "Sunlight"
                       ELSE IF Umbral(k, back, off) < 0 THEN "Umbra" ELSE "Penumbra"
\* on no tangent cone
Clean(k, back, off) == back < 0 \/ (Penumbral(k, back, off) # 0 /\ Umbral(k, back, off) # 0)
\* ---- mask: azimuths in degrees, elevations in tenths; straight between neighbours, around the circle --------------
Turn(a) == a % 360
MaskAt(s, az) == LET q == Turn(az)
                     Up(k) == (Turn(s[k][1]) - q) % 360
                     Down(k) == (q - Turn(s[k][1])) % 360
                     n == CHOOSE k \in DOMAIN s : \A j \in DOMAIN s : Up(k) <= Up(j)
                     p == CHOOSE k \in DOMAIN s : \A j \in DOMAIN s : Down(k) <= Down(j)
                     w == Up(n) + Down(p)
                 IN IF s = <<>> THEN <<0, 1>> ELSE IF w = 0 THEN <<s[n][2], 1>> ELSE <<s[p][2] * Up(n) + s[n][2] * Down(p), w>>
\* ---- sun: solar times and the angle of the Sun over an orbit ------------------------------------------------------
Solar(lon, sun) == (43200 + (lon - sun) * 240) % 86400
\* ---- fov: full widths in degrees, offsets from the boresight in tenths of a degree, on no edge ---------------------
Offsides == <<-900, -851, -151, -149, -49, -31, -21, -4, -3, 0, 3, 4, 6, 21, 29, 31, 149, 151, 299, 301, 849, 851, 1699, 1701>>
Within(f, o) == 2 * Abs(o) < 10 * (IF f.kind = "cone" THEN f.across ELSE IF f.across < f.along THEN f.across ELSE f.along)
\* ---- names: two registries that have nothing to do with each other -------------------------------------------------
Keys == {"a", "b"}
Empty == [k \in Keys |-> 0]
Init == /\ done = FALSE
        /\ \/ Mode = "los" /\ \E a \in {v \in Grid(Size) : v[1] >= 0 /\ v[2] >= 0}, b \in Grid(Size), r \in {1, 2, 3} : x = [a |-> a, b |-> b, r |-> r]
           \/ Mode = "shadow" /\ \E s \in {1, 2}, turn \in 0 .. 5, move \in {0, 1} : \E back \in Backs(Sky[s]) \cup {-(Sky[s].occ + 1), -(Sky[s].dist + Sky[s].sun + 1), -(2 * Sky[s].dist)} :
                 x = [sky |-> s, turn |-> turn, move |-> move, back |-> back]
           \/ Mode = "mask" /\ \E n \in 0 .. Size : \E az \in {f \in [1 .. n -> {-350, -90, 0, 10, 95, 180, 270, 359, 400}] : \A i, j \in 1 .. n : i # j => Turn(f[i]) # Turn(f[j])} :
                 x = [s |-> [i \in 1 .. n |-> <<az[i], ((i * 37) % 90) - 20>>]]
           \/ Mode = "sky" /\ \E lat \in {-90, -45, 0, 30, 90}, lon \in {-180, -75, 0, 120}, enu \in Grid(1) \cup {<<3, 4, 0>>, <<-5, 12, 1>>, <<1, -1000, 1>>, <<-1, 1000, 0>>}, v \in {<<0, 0, 0>>, <<1, 0, 0>>, <<-2, 3, 6>>} :
                 enu # <<0, 0, 0>> /\ x = [lat |-> lat, lon |-> lon, enu |-> enu, v |-> v]
           \/ Mode = "sun" /\ \E lon \in {-540, -180, -179, -90, -1, 0, 1, 15, 90, 179, 180, 270, 359, 725}, sun \in {-180, -30, 0, 1, 90, 200, 359} : \E r \in {<<1, 0, 0>>, <<0, 2, 0>>, <<1, 1, 0>>, <<0, -1, 3>>}, v \in Grid(1), s \in Grid(1) :
                 Cross(r, v) # <<0, 0, 0>> /\ s # <<0, 0, 0>> /\ x = [lon |-> lon, sun |-> sun, r |-> r, v |-> v, s |-> s]
           \/ Mode = "fov" /\ \E kind \in {"cone", "box"}, across \in {1, 4, 30, 170}, along \in {1, 6, 30, 170} : x = [kind |-> kind, across |-> across, along |-> along]
           \/ Mode = "names" /\ x = [log |-> <<>>, site |-> Empty, tool |-> Empty]
\* the registry is stepped through its history
Act == /\ Mode = "names" /\ ~done /\ Len(x.log) < Size
       /\ \E kind \in {"site", "tool"}, k \in Keys, op \in {"add", "remove"} :
             LET v == IF op = "add" THEN Len(x.log) + 1 ELSE 0
                 e == <<kind, op, k, Len(x.log) + 1, IF kind = "site" THEN x.site[k] ELSE x.tool[k]>>
             IN x' = [log |-> Append(x.log, e), site |-> IF kind = "site" THEN [x.site EXCEPT ![k] = v] ELSE x.site, tool |-> IF kind = "tool" THEN [x.tool EXCEPT ![k] = v] ELSE x.tool]
       /\ done' = done
Settle == ~done /\ done' = TRUE /\ x' = x
Next == Act \/ Settle
Spec == Init /\ [][Next]_vars
\* going aside never darkens
Lightens == Mode = "shadow" => LET k == Sky[x.sky] IN \A o \in Offs(k) : \A p \in Offs(k) : (o < p /\ State(k, x.back, o) = "Sunlight") => State(k, x.back, p) = "Sunlight"
Seq2(S) == LET RECURSIVE R(_)
               R(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE a \in T : \A b \in T : a <= b IN <<m>> \o R(T \ {m})
           IN R(S)
Azs == <<-720, -351, -100, -90, -1, 0, 5, 9, 10, 11, 40, 95, 120, 180, 200, 270, 300, 358, 359, 360, 400, 755>>
View == CASE Mode = "los" -> [a |-> x.a, b |-> x.b, r |-> x.r, near |-> Nearest(x.a, x.b, x.r)]
        [] Mode = "shadow" -> LET k == Sky[x.sky]  o == Seq2({f \in Offs(k) : Clean(k, x.back, f) /\ (x.back > 0 \/ f \in {0, 1, k.occ})}) IN
                              [sun |-> k.sun, occ |-> k.occ, dist |-> k.dist, turn |-> x.turn, move |-> x.move, back |-> x.back, offs |-> o, states |-> [i \in DOMAIN o |-> State(k, x.back, o[i])]]
        [] Mode = "mask" -> [s |-> x.s, at |-> [i \in DOMAIN Azs |-> <<Azs[i], MaskAt(x.s, Azs[i])[1], MaskAt(x.s, Azs[i])[2]>>]]
        [] Mode = "sky" -> [lat |-> x.lat, lon |-> x.lon, enu |-> x.enu, v |-> x.v, closing |-> Dot(x.enu, x.v), square |-> Dot(x.enu, x.enu)]
        [] Mode = "sun" -> [lon |-> x.lon, sun |-> x.sun, solar |-> Solar(x.lon, x.sun), r |-> x.r, v |-> x.v, s |-> x.s, side |-> Dot(Cross(x.r, x.v), x.s), normal |-> Dot(Cross(x.r, x.v), Cross(x.r, x.v)), light |-> Dot(x.s, x.s)]
        [] Mode = "fov" -> [kind |-> x.kind, across |-> x.across, along |-> x.along, offs |-> Offsides, seen |-> [k \in DOMAIN Offsides |-> Within(x, Offsides[k])]]
        [] OTHER -> [log |-> x.log, site |-> <<x.site["a"], x.site["b"]>>, tool |-> <<x.tool["a"], x.tool["b"]>>]
Emit == done => PrintT("SCN " \o ToJson([mode |-> Mode, v |-> View]))
=============================================================================

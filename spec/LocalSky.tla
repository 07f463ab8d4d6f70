------------------------------ MODULE LocalSky ------------------------------
\* The sky of an observer. A thing is told on the equator (towards the meridian, towards the east, towards the pole) or on the
\* horizon (north, east, up); the latitude is a Pythagorean one, so both are whole numbers over a power of its hypotenuse and no
\* rounding hides a wrong sign. Azimuths may be counted from any cardinal point either way round.
EXTENDS FrameWords, SequencesExt
CONSTANTS Kind, Size
VARIABLES start, steps, at, vec, by, conv, done
vars == <<start, steps, at, vec, by, conv, done>>
\* sine, cosine and hypotenuse of latitudes
Lats == <<<<0, 1, 1>>, <<1, 0, 1>>, <<-1, 0, 1>>, <<3, 4, 5>>, <<-4, 3, 5>>, <<5, 12, 13>>, <<-12, 5, 13>>>>
Lons == 1 .. 5
Unit == {-1, 0, 1}
Cube == {<<x, y, z>> : x \in Unit, y \in Unit, z \in Unit} \ {<<0, 0, 0>>}
\* zenith, nadir, the north and the south point of a horizon, and places next to them
Marks(l) == LET s == l[1] c == l[2] IN {<<c, 0, s>>, <<-c, 0, -s>>, <<-s, 0, c>>, <<s, 0, -c>>, <<100 * c, 1, 100 * s>>, <<-100 * c, -1, -100 * s>>, <<c, 12, s>>, <<-s, -12, c>>}
Others == {<<3, 4, 0>>, <<0, -3, 4>>, <<1, 2, 2>>, <<-2, 1, -2>>, <<1, 0, 100>>, <<0, -1, -100>>}
Things(l) == Cube \cup Marks(l) \cup Others
Horizon(v, l) == <<l[2] * v[3] - l[1] * v[1], l[3] * v[2], l[2] * v[1] + l[1] * v[3]>>
Equator(n, l) == <<l[2] * n[3] - l[1] * n[1], l[3] * n[2], l[2] * n[1] + l[1] * n[3]>>
Sq(v) == v[1] * v[1] + v[2] * v[2] + v[3] * v[3]
\* what turns the equator to the horizon and back; told apart by the axes on the equator, the clock, and what carries the thing
Ups == [trait |-> [frame |-> "true", clock |-> "given", form |-> "direction"],
        precise |-> [frame |-> "true", clock |-> "given", form |-> "direction"],
        ext |-> [frame |-> "true", clock |-> "default", form |-> "direction"],
        position |-> [frame |-> "true", clock |-> "given", form |-> "position"],
        event |-> [frame |-> "true", clock |-> "default", form |-> "position"],
        event_true |-> [frame |-> "true", clock |-> "default", form |-> "position"],
        event_context |-> [frame |-> "true", clock |-> "context", form |-> "position"],
        mean |-> [frame |-> "mean", clock |-> "default", form |-> "position"],
        mean_spherical |-> [frame |-> "mean", clock |-> "default", form |-> "position"],
        star |-> [frame |-> "ICRS", clock |-> "default", form |-> "direction"],
        star_apparent |-> [frame |-> "ICRS", clock |-> "default", form |-> "direction"],
        star_geometric |-> [frame |-> "true", clock |-> "default", form |-> "direction"],
        target |-> [frame |-> "ICRS", clock |-> "default", form |-> "direction"],
        target_policy |-> [frame |-> "ICRS", clock |-> "default", form |-> "direction"],
        target_geometric |-> [frame |-> "true", clock |-> "default", form |-> "direction"]]
Downs == [trait |-> Ups.trait, position |-> Ups.position, mean |-> Ups.mean, mean_spherical |-> Ups.mean_spherical]
\* conventions of azimuth: the cardinal point it is counted from, and clockwise or not
Cardinal == [North |-> <<1, 0>>, East |-> <<0, 1>>, South |-> <<-1, 0>>, West |-> <<0, -1>>]
Origins == DOMAIN Cardinal
Convs == {[origin |-> o, cw |-> w] : o \in Origins, w \in BOOLEAN}
Native == [origin |-> "North", cw |-> TRUE]
\* how far along the cardinal point and how far past it, the way the convention goes
Seen(n, e, c) == LET o == Cardinal[c.origin] IN <<n * o[1] + e * o[2], (IF c.cw THEN 1 ELSE -1) * (e * o[1] - n * o[2])>>
Opposite == [North |-> "South", South |-> "North", East |-> "West", West |-> "East"]
Bearings == {<<x, y>> : x \in Unit, y \in Unit} \ {<<0, 0>>}
Slants == {<<3, 4>>, <<4, -3>>, <<-3, 4>>, <<-4, -3>>, <<1000, 1>>, <<1000, -1>>, <<-1, 1000>>, <<-1000, -1>>}
Means == {"number", "direction", "position", "native direction", "native position"}
\* the bodies, in the frame ICRS turned to that of the day
Bodies2 == {"Sun", "Moon", "Mercury", "Venus", "Mars", "Jupiter", "Saturn", "Uranus", "Neptune"}
\* a grid of cells: rows of altitudes counted by rounding, halves upward
Round(a, b) == (2 * a + b) \div (2 * b)
Rows(g) == IF g.hi <= g.lo \/ g.step <= 0 THEN 0 ELSE Round(g.hi - g.lo, g.step)
Across(g) == IF g.az <= 0 THEN 0 ELSE Round(360, g.az)
Grids == {[lo |-> lo, hi |-> hi, step |-> st, az |-> az, equal |-> q] : lo \in {-90, -30, 0, 10}, hi \in {0, 10, 30, 45, 90},
           st \in {-5, 0, 1, 7, 10, 30, 40, 60, 90}, az \in {-10, 0, 1, 7, 30, 100, 360, 720, 721}, q \in BOOLEAN}
Starts == CASE Kind = "sky" -> UNION {{[lat |-> k, lon |-> 1 + ((k + v[1] + 2 * v[2] + 3 * v[3]) % 5), v |-> v, epoch |-> IF Size > 2 THEN e ELSE 1 + ((e + k + v[1] + v[2] + v[3]) % 5), r |-> r] : v \in Things(Lats[k]), r \in {0, 1}} : k \in 1 .. Len(Lats), e \in IF Size > 2 THEN 1 .. 5 ELSE {1}}
            [] Kind = "walk" -> UNION {{[lat |-> k, lon |-> 1 + ((k + e) % 5), v |-> v, epoch |-> e, r |-> 2] : v \in Marks(Lats[k]) \cup Others \cup {<<0, 0, 1>>, <<0, 0, -1>>, <<1, 0, 0>>}} : k \in 1 .. Len(Lats), e \in {2, 4}}
            [] Kind = "convention" -> {[v |-> b, conv |-> c, turns |-> t] : b \in Bearings \cup Slants, c \in Convs, t \in IF Size = 1 THEN {-2, 0, 1} ELSE {0}}
            [] Kind = "body" -> {[body |-> b, lat |-> k, lon |-> l, epoch |-> e] : b \in Bodies2, k \in 1 .. Len(Lats), l \in Lons, e \in 1 .. 5}
            [] OTHER -> Grids
Init == /\ start \in Starts /\ steps = <<>> /\ done = FALSE
        /\ at = (IF Kind = "convention" THEN "horizon" ELSE "equator")
        /\ vec = (IF Kind \in {"sky", "walk"} THEN start.v ELSE IF Kind = "convention" THEN <<start.v[1], start.v[2], 0>> ELSE <<0, 0, 0>>)
        /\ by = 1
        /\ conv = (IF Kind = "convention" THEN start.conv ELSE Native)
L == Lats[start.lat]
Step(do, way, n, d, c) == [do |-> do, way |-> way, vec |-> n, by |-> d, conv |-> c, seen |-> Seen(n[1], n[2], c)]
\* numbers that share the hypotenuse are cut down, to keep them small
Cut(n, d) == LET h == L[3] IN IF h # 1 /\ d % h = 0 /\ \A k \in 1 .. 3 : n[k] % h = 0 THEN <<[k \in 1 .. 3 |-> n[k] \div h], d \div h>> ELSE <<n, d>>
Up == /\ at = "equator"
      /\ \E w \in DOMAIN Ups :
           /\ start.r = 0 => Ups[w].form = "position"
           /\ Kind = "walk" => w \in {"trait", "ext", "position", "event", "mean", "mean_spherical"}
           /\ LET n == Horizon(vec, L)  t == Cut(Cut(n, by * L[3])[1], Cut(n, by * L[3])[2])
              IN vec' = t[1] /\ by' = t[2] /\ steps' = Append(steps, Step("up", w, t[1], t[2], Native) @@ [turn |-> Ups[w]])
      /\ at' = "horizon" /\ conv' = Native
Down == /\ at = "horizon" /\ conv = Native
        /\ \E w \in DOMAIN Downs :
             /\ start.r = 0 => Downs[w].form = "position"
             /\ LET n == Equator(vec, L)  t == Cut(Cut(n, by * L[3])[1], Cut(n, by * L[3])[2])
                IN vec' = t[1] /\ by' = t[2] /\ steps' = Append(steps, Step("down", w, t[1], t[2], Native) @@ [turn |-> Downs[w]])
        /\ at' = "equator" /\ UNCHANGED conv
\* few conventions in walks, all of them on their own
Some == IF Kind = "convention" THEN Convs ELSE {Native, [origin |-> "South", cw |-> TRUE], [origin |-> "East", cw |-> FALSE]}
Count == /\ at = "horizon"
         /\ \/ \E c \in Some, m \in Means :
                 /\ Kind = "walk" => c # conv /\ m \in {"direction", "native position"}
                 /\ m \in {"native direction", "native position"} => Native \in {c, conv}
                 /\ conv' = c /\ steps' = Append(steps, Step("count", m, vec, by, c))
            \/ Kind = "convention" /\ LET c == [conv EXCEPT !.origin = Opposite[conv.origin]] IN conv' = c /\ steps' = Append(steps, Step("count", "flip north", vec, by, c))
            \/ Kind = "convention" /\ LET c == [conv EXCEPT !.cw = ~conv.cw] IN conv' = c /\ steps' = Append(steps, Step("count", "flip sense", vec, by, c))
         /\ UNCHANGED <<at, vec, by>>
Full == CASE Kind \in {"body", "grid"} -> TRUE [] Kind = "sky" -> Len(steps) = 2 [] OTHER -> Len(steps) = Size
\* in the sky a thing goes up and comes down again
Next == \/ ~done /\ ~Full /\ UNCHANGED <<start, done>>
           /\ (CASE Kind = "sky" -> Up \/ Down [] Kind = "walk" -> Up \/ Down \/ Count [] OTHER -> Count)
        \/ ~done /\ Full /\ done' = TRUE /\ UNCHANGED <<start, steps, at, vec, by, conv>>
Spec == Init /\ [][Next]_vars
\* the thing stays where it is: its length is kept, and on the equator it is the vector it was
Length == Kind \in {"sky", "walk"} => Sq(vec) = by * by * Sq(start.v)
Kept == Kind \in {"sky", "walk"} /\ at = "equator" => vec = [k \in 1 .. 3 |-> by * start.v[k]]
\* the same bearing in any convention: no two bearings are counted alike
Told == Kind = "convention" => LET s == Seen(vec[1], vec[2], conv) o == Cardinal[conv.origin] w == IF conv.cw THEN 1 ELSE -1
                               IN vec = <<s[1] * o[1] - w * s[2] * o[2], s[1] * o[2] + w * s[2] * o[1], 0>>
\* the pole is as high as the latitude, due north
Pole == Kind = "sky" /\ at = "horizon" /\ start.v = <<0, 0, 1>> => vec[1] * L[3] = by * L[2] /\ vec[3] * L[3] = by * L[1]
\* rows are next to one another, and as many as fit
Tiled == Kind = "grid" => LET n == Rows(start) IN n > 0 /\ (start.hi - start.lo) % start.step = 0 => start.lo + n * start.step = start.hi
Turned == [true |-> Between("EquatorialTrueOfDate", "CIRS"), ICRS |-> Between("ICRS", "CIRS"), ecliptic |-> Between("EclipticMeanJ2000", "CIRS"),
           back |-> Between("CIRS", "EquatorialTrueOfDate"), ecef |-> Between("EclipticMeanJ2000", "ECEF")]
Emit == done => PrintT("SCN " \o ToJson([kind |-> Kind, start |-> start, steps |-> steps] @@
           (IF Kind = "grid" THEN [rows |-> Rows(start), across |-> Across(start), middles |-> [k \in 1 .. Rows(start) |-> 2 * start.lo + (2 * k - 1) * start.step]]
            ELSE IF Kind = "convention" THEN [seen |-> Seen(start.v[1], start.v[2], start.conv)]
            ELSE [words |-> Turned, lat |-> Lats[start.lat]])))
=============================================================================

----------------------------- MODULE CenterWalk -----------------------------
\* Where a thing is, told from different centres. A place is a sum of landmarks taken at epochs; moving it to another centre adds
\* what lies between the centres at that epoch, and turning the frame changes the axes and nothing else.
EXTENDS FrameWords, SequencesExt
CONSTANTS Mode, Size
VARIABLES start, steps, at, center, frame, done
vars == <<start, steps, at, center, frame, done>>
Planets == {"Mercury", "Venus", "Mars", "Jupiter", "Saturn", "Uranus", "Neptune"}
Points == {"L1", "L2", "L3", "L4", "L5"}
Hubs == {"Barycentric", "Heliocentric", "Geocentric"}
Leaves == Planets \cup Points \cup {"Pluto", "Moon"}
Centers == Hubs \cup Leaves
Sites == 1 .. 4
Orbits == 1 .. 2
\* sums of landmarks: a function from <<landmark, epoch>> to how often it is counted
None == [k \in {} |-> 0]
Get(a, k) == IF k \in DOMAIN a THEN a[k] ELSE 0
Trim(a) == [k \in {k \in DOMAIN a : a[k] # 0} |-> a[k]]
Add(a, b) == Trim([k \in DOMAIN a \cup DOMAIN b |-> Get(a, k) + Get(b, k)])
Neg(a) == [k \in DOMAIN a |-> -a[k]]
One(l, e) == [k \in {<<l, e>>} |-> 1]
\* from the barycentre to a centre: the Moon is told from the Earth, Pluto from the Sun, the site from the Earth and a body from
\* whatever its orbit is about
Home(c, e) == CASE c = "Barycentric" -> None
                [] c = "Heliocentric" -> One("Sun", e)
                [] c = "Geocentric" -> One("Earth", e)
                [] c = "Moon" -> Add(One("Earth", e), One("Moon", e))
                [] c = "Pluto" -> Add(One("Sun", e), One("Pluto", e))
                [] OTHER -> One(c, e)
BodyName(h, k) == "body " \o h \o " " \o ToString(k)
SiteName(n) == "site" \o ToString(n)
Bods == {BodyName(h, k) : h \in Hubs, k \in Orbits}
Places == {SiteName(n) : n \in Sites}
About(c) == CHOOSE b \in [h : Hubs, k : Orbits] : BodyName(b.h, b.k) = c
Off(c, e) == IF c \in Centers THEN Home(c, e) ELSE IF c \in Places THEN Add(Home("Geocentric", e), One(c, e))
             ELSE Add(Home(About(c).h, e), One("orbit" \o ToString(About(c).k), e))
Move(c, d, e) == Add(Off(c, e), Neg(Off(d, e)))
\* the centres on offer from a centre, in a frame
Still == {"EclipticMeanJ2000", "EquatorialMeanJ2000", "ICRS"}
Frames6 == Still \cup {"Galactic", "ECEF", "Mars"}
Offered(c, f) == IF Mode \in {"pair", "walk", "drift"}
                 THEN IF c \in Hubs THEN Centers ELSE Hubs \cup {c}
                 ELSE IF c \in Hubs THEN (IF Mode = "body" THEN Bods ELSE IF c = "Geocentric" THEN Places ELSE {"Geocentric"})
                 ELSE {"Geocentric"}
Epochs == 1 .. 3
\* the frames one may turn to without naming a time are the only ones that go round a body or site
Turns(f) == (IF Mode = "walk" THEN Frames6 ELSE {}) \ {f}
Starts == CASE Mode \in {"pair"} -> {[center |-> c, frame |-> f] : c \in Centers, f \in Frames6}
            [] Mode = "walk" -> {[center |-> c, frame |-> f] : c \in Centers, f \in {"EclipticMeanJ2000", "ECEF"}}
            [] Mode = "drift" -> {[center |-> c, frame |-> "EclipticMeanJ2000"] : c \in Centers}
            [] Mode = "body" -> {[center |-> c, frame |-> f] : c \in Hubs, f \in Still}
            [] OTHER -> {[center |-> "Geocentric", frame |-> f] : f \in Still}
\* one epoch to a walk, unless it is to drift
Walks == {[c |-> s.center, f |-> s.frame, e |-> e] : s \in Starts, e \in Epochs}
Init == /\ start \in Walks
        /\ steps = <<>> /\ center = start.c /\ frame = start.f
        /\ at = Add(One("point", 1), Neg(Off(start.c, start.e)))
        /\ done = FALSE
Times == IF Mode \in {"drift", "body", "site"} THEN (IF Mode = "drift" THEN Epochs ELSE {start.e, 1 + (start.e % 3)}) ELSE {start.e}
ToCenter == \E d \in Offered(center, frame), e \in Times :
              /\ center' = d /\ at' = Add(at, Move(center, d, e)) /\ frame' = frame
              /\ steps' = Append(steps, [do |-> "center", center |-> d, epoch |-> e, frame |-> frame, at |-> SetToSeq({<<k[1], k[2], at'[k]>> : k \in DOMAIN at'})])
ToFrame == \E f \in Turns(frame) :
              /\ frame' = f /\ UNCHANGED <<center, at>>
              /\ steps' = Append(steps, [do |-> "frame", center |-> center, epoch |-> start.e, frame |-> f, at |-> SetToSeq({<<k[1], k[2], at[k]>> : k \in DOMAIN at})])
Length == IF Mode = "pair" THEN 1 ELSE Size
Next == \/ Len(steps) < Length /\ (ToCenter \/ ToFrame) /\ UNCHANGED <<start, done>>
        \/ Len(steps) = Length /\ ~done /\ done' = TRUE /\ UNCHANGED <<start, steps, at, center, frame>>
Spec == Init /\ [][Next]_vars
\* where the thing is does not depend on the way round, as long as no time passes
Still1 == \A k \in 1 .. Len(steps) : steps[k].epoch = start.e
WayIndependent == Still1 => at = Add(One("point", 1), Neg(Off(center, start.e)))
\* the thing itself is never lost or doubled
OnePoint == Get(at, <<"point", 1>>) = 1
\* going to a centre and back at the same epoch changes nothing
Returns == Len(steps) >= 2 /\ steps[Len(steps)].epoch = steps[Len(steps) - 1].epoch /\ Still1 /\ center = start.c => at = Add(One("point", 1), Neg(Off(start.c, start.e)))
Words == [f \in Frames6 |-> Between("EclipticMeanJ2000", f)]
Emit == done => PrintT("SCN " \o ToJson([mode |-> Mode, from |-> start.c, frame |-> start.f, epoch |-> start.e,
           at |-> LET a == Add(One("point", 1), Neg(Off(start.c, start.e))) IN SetToSeq({<<k[1], k[2], a[k]>> : k \in DOMAIN a}),
           steps |-> steps, words |-> Words]))
=============================================================================

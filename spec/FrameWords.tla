----------------------------- MODULE FrameWords -----------------------------
\* Every frame is turned out of the ICRS by a word of elementary rotations (its definition); a rotation between two frames
\* undoes what they do not share of one word and does the rest of the other.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Bodies == {"Mercury", "Venus", "Mars", "Moon", "Jupiter", "Saturn", "Uranus", "Neptune", "Pluto"}
Inertial == {"EquatorialMeanJ2000", "EclipticMeanJ2000", "EME2000", "EquatorialMeanOfDate", "EquatorialTrueOfDate", "ICRF", "GCRS", "TEME", "Galactic", "FK4B1950"}
Earth == {"CIRS", "TIRS", "ITRF", "ECEF"}
Frames == Bodies \cup Inertial \cup Earth \cup {"ICRS"}
\* B frame bias, O obliquity at J2000, P precession, N nutation, E equation of the equinoxes back to the mean equinox, C to the
\* celestial intermediate system, R rotation of the Earth, W polar motion, G galactic, K to B1950, and one for each body
Word(f) == CASE f \in {"ICRS", "ICRF", "GCRS"} -> <<>>
             [] f \in {"EquatorialMeanJ2000", "EME2000"} -> <<"B">>
             [] f = "EclipticMeanJ2000" -> <<"B", "O">>
             [] f = "EquatorialMeanOfDate" -> <<"B", "P">>
             [] f = "EquatorialTrueOfDate" -> <<"B", "P", "N">>
             [] f = "TEME" -> <<"B", "P", "N", "E">>
             [] f = "CIRS" -> <<"C">>
             [] f = "TIRS" -> <<"C", "R">>
             [] f \in {"ITRF", "ECEF"} -> <<"C", "R", "W">>
             [] f = "Galactic" -> <<"G">>
             [] f = "FK4B1950" -> <<"B", "K">>
             [] OTHER -> <<f>>
\* turns that are offered by name, with no frames put to them: L to the mean ecliptic of date, T to the true one
Mean == <<"B", "P">>
Ways == [precession |-> <<<<>>, Mean>>, precession_nutation |-> <<<<>>, Mean \o <<"N">> >>, nutation |-> <<Mean, Mean \o <<"N">> >>,
         ecliptic |-> <<<<>>, Mean \o <<"L">> >>, from_ecliptic |-> <<Mean \o <<"L">>, <<>> >>, mean_to_ecliptic |-> <<Mean, Mean \o <<"L">> >>,
         ecliptic_to_mean |-> <<Mean \o <<"L">>, Mean>>, true_ecliptic |-> <<<<>>, Mean \o <<"N", "T">> >>, from_true_ecliptic |-> <<Mean \o <<"N", "T">>, <<>> >>,
         mean_to_true_ecliptic |-> <<Mean, Mean \o <<"N", "T">> >>, true_ecliptic_to_mean |-> <<Mean \o <<"N", "T">>, Mean>>,
         intermediate |-> <<<<>>, <<"C">> >>, polar_motion |-> <<<<"C", "R">>, <<"C", "R", "W">> >>, sidereal |-> <<Mean \o <<"N">>, <<"C", "R">> >>,
         mean_sidereal |-> <<Mean \o <<"N", "E">>, <<"C", "R">> >>]
\* a step of a rotation: a generator, done or undone
Do(g) == <<g, 1>>
Undo(g) == <<g, -1>>
RECURSIVE Common(_, _)
Common(a, b) == IF a = <<>> \/ b = <<>> \/ Head(a) # Head(b) THEN 0 ELSE 1 + Common(Tail(a), Tail(b))
Path(a, b) == LET k == Common(a, b)
                  up == SubSeq(a, k + 1, Len(a))  down == SubSeq(b, k + 1, Len(b))
              IN [i \in 1 .. Len(up) |-> Undo(up[Len(up) + 1 - i])] \o [i \in 1 .. Len(down) |-> Do(down[i])]
Between(f, g) == Path(Word(f), Word(g))
\* following one rotation by another, cancelling what is done and undone
RECURSIVE Then(_, _)
Then(a, b) == IF a # <<>> /\ b # <<>> /\ a[Len(a)][1] = Head(b)[1] /\ a[Len(a)][2] = -Head(b)[2]
              THEN Then(SubSeq(a, 1, Len(a) - 1), Tail(b)) ELSE a \o b
=============================================================================

------------------------------ MODULE FrameWalk ------------------------------
\* Reference frames and the rotations between them. Every frame is turned out of the ICRS by a word of elementary rotations
\* (its definition); a rotation between two frames undoes what they do not share of one word and does the rest of the other.
\* The library offers some pairs directly. Walking from frame to frame along offered pairs has to amount to the same word.
EXTENDS FrameWords
CONSTANTS Mode, Size
VARIABLES walk, ctx, done
vars == <<walk, ctx, done>>
\* what a generator depends on
Timed(g) == g \in {"P", "N", "E", "C", "R", "W", "L", "T"} \cup Bodies
Polar(g) == g \in {"N", "C", "R", "W"}
Model(g) == g \in {"N", "E", "C", "T"}
\* the pairs on offer, one way; every one is offered the other way too
Hub == {<<"ICRS", f>> : f \in Frames \ {"ICRS"}}
Aliases == {<<"EME2000", f>> : f \in {"EquatorialMeanJ2000", "EclipticMeanJ2000", "EquatorialMeanOfDate", "EquatorialTrueOfDate", "ICRF", "GCRS"} \cup Bodies}
           \cup {<<"ICRF", f>> : f \in {"EquatorialMeanJ2000", "EclipticMeanJ2000", "EquatorialMeanOfDate", "EquatorialTrueOfDate"}}
           \cup {<<"GCRS", f>> : f \in {"EquatorialMeanJ2000", "EquatorialTrueOfDate", "EclipticMeanJ2000"} \cup Earth}
Equator == {<<"EquatorialMeanJ2000", f>> : f \in {"EclipticMeanJ2000", "EquatorialMeanOfDate", "EquatorialTrueOfDate", "FK4B1950", "Galactic"}}
           \cup {<<"EquatorialMeanOfDate", "EquatorialTrueOfDate">>, <<"TEME", "EquatorialTrueOfDate">>, <<"Galactic", "EclipticMeanJ2000">>}
           \cup {<<"EclipticMeanJ2000", f>> : f \in Bodies}
Ground == {<<"CIRS", "TIRS">>, <<"TIRS", "ITRF">>, <<"ITRF", "ECEF">>}
          \cup ({"EclipticMeanJ2000", "EquatorialMeanJ2000", "EME2000", "EquatorialMeanOfDate", "EquatorialTrueOfDate", "ICRF", "TEME", "Galactic", "FK4B1950"} \X Earth)
Pairs == Hub \cup Aliases \cup Equator \cup Ground
Offered(f, g) == f = g \/ <<f, g>> \in Pairs \/ <<g, f>> \in Pairs
Contexts == [epoch : {1, 2, 3, 4, 5}, eop : {"none", "some"}, model : {"2000A", "2000B", "2006", "2006A"}]
\* ---- the walks ---------------------------------------------------------------------------------------------------
Init == /\ done = FALSE
        /\ \/ Mode # "way" /\ \E f \in Frames : walk = <<f>>
           \/ Mode = "way" /\ \E w \in DOMAIN Ways : walk = <<w>>
        /\ ctx \in IF Mode \in {"edge", "way"} THEN Contexts ELSE [epoch : {3}, eop : {"some"}, model : {"2000B"}]
Step == /\ ~done /\ Len(walk) <= Size /\ Mode # "way"
        /\ \E g \in Frames : /\ Offered(walk[Len(walk)], g)
                             /\ Mode = "edge" \/ g # walk[Len(walk)]
                             /\ walk' = Append(walk, g)
        /\ UNCHANGED <<ctx, done>>
\* in mode loop only walks that come home count
Stop == /\ ~done /\ (Mode = "way" \/ Len(walk) > 1)
        /\ Mode \in {"edge", "way"} \/ (Len(walk) = Size + 1 /\ Offered(walk[1], walk[Len(walk)]))
        /\ done' = TRUE /\ UNCHANGED <<walk, ctx>>
Next == Step \/ Stop
Spec == Init /\ [][Next]_vars
Start == walk[1]
End == walk[Len(walk)]
\* however one walks, one has turned by what lies between the ends
RECURSIVE Turned(_)
Turned(w) == IF Len(w) < 2 THEN <<>> ELSE Then(Turned(SubSeq(w, 1, Len(w) - 1)), Between(w[Len(w) - 1], w[Len(w)]))
Consistent == Mode = "way" \/ Turned(walk) = Between(Start, End)
Word2 == IF Mode = "way" THEN Path(Ways[Start][1], Ways[Start][2]) ELSE Between(Start, End)
Emit == done => PrintT("SCN " \o ToJson([mode |-> Mode, walk |-> walk, turn |-> Word2, epoch |-> ctx.epoch, eop |-> ctx.eop, model |-> ctx.model,
    timed |-> \E i \in DOMAIN Word2 : Timed(Word2[i][1]), polar |-> \E i \in DOMAIN Word2 : Polar(Word2[i][1]), modelled |-> \E i \in DOMAIN Word2 : Model(Word2[i][1])]))
=============================================================================

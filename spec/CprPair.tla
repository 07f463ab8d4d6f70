------------------------------ MODULE CprPair ------------------------------
\* Compact position reports: what a transponder sends for a position, and what a receiver makes of one or two of them.
\* Positions are in thousandths of a degree, so that the encoding is exact integer arithmetic.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode, Bands, Lons
Turn == 360000
\* latitudes (thousandths of a degree, rounded down) up to which there are at least 2, 3, .. 59 longitude zones
Zones == <<87000, 86535, 85755, 84891, 83991, 83071, 82139, 81198, 80249, 79294, 78333, 77367, 76396, 75420, 74438, 73451, 72458, 71459, 70454, 69442, 68423, 67396, 66361, 65318, 64266, 63204, 62132, 61049, 59954, 58847, 57727, 56593, 55443, 54278, 53095, 51893, 50671, 49427, 48160, 46867, 45546, 44194, 42809, 41386, 39922, 38412, 36850, 35228, 33539, 31772, 29911, 27938, 25829, 23545, 21029, 18186, 14828, 10470>>
Abs(n) == IF n < 0 THEN -n ELSE n
NL(lat) == 1 + Cardinality({k \in 1 .. 58 : Abs(lat) <= Zones[k]})
Max(a, b) == IF a > b THEN a ELSE b
\* seventeen bits of the place inside a zone, of which there are n to a turn
Bits(x, n) == (((((x * n) % Turn) * 4096 + 5625) \div 11250) % 131072)
Lat(p, odd) == Bits(p[1], 60 - odd)
Lon(p, odd) == Bits(p[2], Max(NL(p[1]) - odd, 1))
Wrap(x) == ((x + 180000) % Turn) - 180000
\* ---- the positions ---------------------------------------------------------------------------------------------
Steps == {-1, 2}
Near == UNION {{Zones[k] + d : d \in Steps} : k \in Bands} \cup {0, 1, 2, 5999, 6000, 6001, 6101, 6102, 12203, 45000, 84000, 89949, 89999, 90000}
Lats == {l \in Near \cup {-l : l \in Near} : Abs(l) <= 90000}
Moves == {<<0, 0>>, <<40, 0>>, <<-40, 0>>, <<0, 40>>, <<0, -40>>}
\* every tenth of a degree and more of places that have nothing to do with each other
Coarse == {-89000, -61000, -30500, -3000, 0, 2950, 9000, 45000, 74000, 88000}
Few == {0, 1, -1, 3919, 179999, -180000, -179999}
Many == Few \cup {2950, 6000, 6102, -6102, 90000, -90000, 120000, -120001, 149999, 179960}
VARIABLES a, b, latest, ref, done
vars == <<a, b, latest, ref, done>>
Init == /\ done = FALSE
        /\ \/ /\ Mode = "near" /\ a \in Lats \X Lons /\ \E m \in Moves : b = <<a[1] + m[1], Wrap(a[2] + m[2])>> /\ ref = <<0, 0>>
              /\ Abs(b[1]) <= 90000
           \/ /\ Mode = "far" /\ a \in Coarse \X {-170000, -1000, 0, 77000} /\ b \in Coarse \X {-60000, 5000, 179000} /\ ref = <<0, 0>>
           \/ /\ Mode = "local" /\ a \in Lats \X Lons /\ b = a
              /\ \E dl \in {-2900, -1, 0, 2900}, dn \in {-45, 0, 45} : ref = <<a[1] + dl, Wrap(a[2] + dn * (3600 \div NL(a[1])))>>
              /\ Abs(ref[1]) <= 90000
        /\ latest \in {0, 1}
\* the even report is sent from a, the odd one from b
Settle == ~done /\ done' = TRUE /\ UNCHANGED <<a, b, latest, ref>>
Next == Settle
Spec == Init /\ [][Next]_vars
Straddles == NL(a[1]) # NL(b[1])
\* more zones nearer the equator, and none of the bits overflow
Ordered == /\ \A k \in 1 .. 57 : Zones[k] > Zones[k + 1]
           /\ \A o \in {0, 1} : Lat(a, o) \in 0 .. 131071 /\ Lon(b, o) \in 0 .. 131071
Emit == done => PrintT("SCN " \o ToJson([mode |-> Mode, even |-> <<Lat(a, 0), Lon(a, 0)>>, odd |-> <<Lat(b, 1), Lon(b, 1)>>, latest |-> latest, straddles |-> Straddles,
                                     want |-> IF latest = 1 THEN b ELSE a, n |-> Max(NL((IF latest = 1 THEN b ELSE a)[1]) - latest, 1), ref |-> ref]))
=============================================================================

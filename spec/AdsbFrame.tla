----------------------------- MODULE AdsbFrame -----------------------------
\* Extended squitter frames: the fields standing in their bits, what they mean, and frames damaged on the way.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode, MaxFlips
\* a frame is given by its downlink format, address and the fields of its message as <<value, bits>>
F(v, n) == <<v, n>>
VARIABLES x, done
vars == <<x, done>>
Letter(k) == k \in 1 .. 26 \cup 48 .. 57 \cup {32}
Speeds == {0, 1, 2, 101, 1023}
Rates == {0, 1, 2, 37, 511}
Init == /\ done = FALSE
        /\ \/ Mode = "velocity" /\ x \in [st : 0 .. 7, es : {0, 1}, ew : Speeds, ns : {0, 1}, nv : Speeds, rs : {0, 1}, rate : Rates]
           \/ Mode = "ident" /\ x \in [tc : {0, 1, 4, 5}, cat : {0, 7}, at : 1 .. 8, code : 0 .. 63, tail : {0, 1, 3}]
           \/ Mode = "altitude" /\ x \in [code : 0 .. 4095]
           \/ Mode = "position" /\ x \in [tc : {0, 8, 9, 11, 18, 19, 22}, ss : 0 .. 3, nic : {0, 1}, alt : {0, 4095, 2730, 1365}, t : {0, 1}, odd : {0, 1}, lat : {0, 1, 65536, 131071, 43690}, lon : {0, 1, 65536, 131071, 87381}]
           \/ Mode = "format" /\ x \in [df : 0 .. 31, ca : {0, 5, 7}, icao : {0, 1, 4202013, 16777215}, case : {"upper", "lower"}, len : {26, 28, 30}]
           \/ Mode = "damage" /\ x = [flips |-> <<>>]
Flip == /\ Mode = "damage" /\ ~done /\ Len(x.flips) < MaxFlips
        /\ \E p \in 1 .. 112 : /\ (x.flips # <<>> => p > x.flips[Len(x.flips)])
                               /\ x' = [flips |-> Append(x.flips, p)]
        /\ done' = done
Settle == ~done /\ done' = TRUE /\ x' = x
Next == Flip \/ Settle
Spec == Init /\ [][Next]_vars
\* ---- meanings --------------------------------------------------------------------------------------------------
Knots(s, v, st) == (IF s = 1 THEN -1 ELSE 1) * (v - 1) * (IF st = 2 THEN 4 ELSE 1)
Velocity == LET ok == x.st \in {1, 2}  known == x.ew # 0 /\ x.nv # 0 IN
            [bits |-> <<F(19, 5), F(x.st, 3), F(0, 1), F(0, 1), F(0, 3), F(x.es, 1), F(x.ew, 10), F(x.ns, 1), F(x.nv, 10), F(0, 1), F(x.rs, 1), F(x.rate, 9), F(0, 2), F(0, 1), F(0, 7)>>,
             ok |-> ok, known |-> known, ew |-> Knots(x.es, x.ew, x.st), ns |-> Knots(x.ns, x.nv, x.st),
             climb |-> IF x.rate = 0 THEN <<>> ELSE <<(IF x.rs = 1 THEN -1 ELSE 1) * (x.rate - 1) * 64>>]
\* a callsign with one letter at each place: the place under test holds any code, the last `tail` places are spaces
Code(p) == IF p > 8 - x.tail THEN 32 ELSE IF p = x.at THEN x.code ELSE 1 + ((p * 7) % 26)
Ident == [bits |-> <<F(x.tc, 5), F(x.cat, 3)>> \o [p \in 1 .. 8 |-> F(Code(p), 6)],
          ok |-> x.tc \in 1 .. 4 /\ \A p \in 1 .. 8 : Letter(Code(p)), category |-> x.cat, codes |-> [p \in 1 .. 8 |-> Code(p)]]
\* twenty-five foot steps from -1000 ft when the Q bit is set
Altitude == LET q == (x.code \div 16) % 2  n == (x.code \div 32) * 16 + (x.code % 16) IN
            [bits |-> <<>>, ok |-> TRUE, code |-> x.code, feet |-> IF x.code # 0 /\ q = 1 THEN <<n * 25 - 1000>> ELSE <<>>]
Position == [bits |-> <<F(x.tc, 5), F(x.ss, 2), F(x.nic, 1), F(x.alt, 12), F(x.t, 1), F(x.odd, 1), F(x.lat, 17), F(x.lon, 17)>>, ok |-> x.tc \in 9 .. 18,
             ss |-> x.ss, nic |-> x.nic, alt |-> x.alt, odd |-> x.odd, lat |-> x.lat, lon |-> x.lon]
Format == [bits |-> <<F(11, 5), F(x.icao % 256, 51)>>, ok |-> x.df \in {17, 18} /\ x.len = 28, df |-> x.df, ca |-> x.ca, icao |-> x.icao, case |-> x.case, len |-> x.len]
Damage == [bits |-> <<F(11, 5), F(3, 3), F(1365, 48)>>, ok |-> x.flips = <<>>, flips |-> x.flips]
View == CASE Mode = "velocity" -> Velocity [] Mode = "ident" -> Ident [] Mode = "altitude" -> Altitude [] Mode = "position" -> Position [] Mode = "format" -> Format [] OTHER -> Damage
RECURSIVE Width(_, _)
Width(s, n) == IF n = 0 THEN 0 ELSE s[n][2] + Width(s, n - 1)
\* a message has fifty-six bits
Whole == done => (View.bits = <<>> \/ Width(View.bits, Len(View.bits)) = 56)
Emit == done => PrintT("SCN " \o ToJson([mode |-> Mode, v |-> View]))
=============================================================================

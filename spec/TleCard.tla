------------------------------ MODULE TleCard ------------------------------
\* Two-line element sets: the columns of both lines, the checksum, and what each field may hold.
\* Mode "write" renders element values into lines (or refuses them); mode "read" takes a rendered card, puts other text
\* into its columns or damages it, and says what a reader has to make of it.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode, MaxDev
NaN == 2000000000
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE Rep(_, _)
Rep(c, n) == IF n <= 0 THEN "" ELSE c \o Rep(c, n - 1)
Left(c, n, s) == Rep(c, n - Len(s)) \o s
Z(n, w) == Left("0", w, ToString(n))
Abs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
YearDays(y) == IF Leap(y) THEN 366 ELSE 365
Letters == <<"A", "B", "C", "D", "E", "F", "G", "H", "J", "K", "L", "M", "N", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z">>
RECURSIVE Sum(_, _)
Weight(c) == IF c = "-" THEN 1 ELSE IF \E d \in 1 .. 10 : Digits[d] = c THEN (CHOOSE d \in 1 .. 10 : Digits[d] = c) - 1 ELSE 0
Sum(s, n) == IF n = 0 THEN 0 ELSE Weight(SubSeq(s, n, n)) + Sum(s, n - 1)
Check(s) == ToString(Sum(s, 68) % 10)
\* ---- values --------------------------------------------------------------------------------------------------
\* each field is a sequence of variants, the first of which is the base card's
Norad == <<25544, 5, 99999, 100000, 148493, 179999, 180000, 229999, 230000, 339999, 340000>>
Class == <<"U", "C", "S">>
Desig == <<"98067A", "98067AAA", "", "98067AAAA", "98067~", "56001B", "57001B", "67A", "X1234A">>
\* year, day of year, 1e-9 days
Epoch == <<<<2008, 264, 517825280>>, <<2008, 366, 999999997>>, <<2007, 365, 999999997>>, <<2007, 365, 999999992>>, <<1972, 1, 0>>, <<2056, 366, 999999992>>,
           <<2056, 366, 999999997>>, <<1971, 365, 999999997>>, <<2057, 1, 0>>, <<1999, 365, 123456782>>, <<2000, 1, 0>>, <<2000, 60, 7>>,
           <<2024, 99, 999999998>>, <<2100, 1, 0>>>>
\* signed magnitude, 1e-9
NDot == <<<<"-", 21820>>, <<"+", 0>>, <<"+", 4>>, <<"+", 999999990>>, <<"+", 999999996>>, <<"-", 999999990>>, <<"-", 4>>, <<"+", 1230>>, <<"+", NaN>>>>
\* sign, 7-digit mantissa, exponent: 0.mmmmmmm x 10^e
Exp(base) == <<base, <<"+", 9999951, -5>>, <<"-", 9999949, -5>>, <<"+", 1000000, -9>>, <<"+", 5000000, -10>>, <<"-", 1234567, -13>>, <<"+", 1234567, -16>>,
               <<"+", 5000000, 0>>, <<"+", 1234567, 9>>, <<"+", 1000000, 10>>, <<"+", 9999951, 9>>, <<"-", 9999951, -10>>, <<"+", 0, 0>>, <<"-", 1160600, -4>>, <<"+", NaN, 0>>>>
NDDot == Exp(<<"+", 0, 0>>)
BStar == Exp(<<"-", 1160600, -4>>)
Elset == <<292, 0, 9999, 10000, 65535>>
Rev == <<56353, 0, 99999, 100000>>
\* 1e-5 degrees
Inc == <<5164160, 0, 18000000, -9999990, -10000000, 99999996, 35999996, NaN>>
Raan == <<24746270, 35999996, NaN>>
Argp == <<13053600, 35999996, 99999996>>
Anom == <<32502880, 35999996, -1234560>>
Ecc == <<67030, 0, 99999994, 99999996, 100000000, -1000, NaN>>
\* revolutions per day and 1e-9 of one
Mean == <<<<15, 721253910>>, <<0, 0>>, <<99, 999999994>>, <<99, 999999996>>, <<100, 0>>, <<NaN, 0>>>>
Count == <<Len(Norad), Len(Class), Len(Desig), Len(Epoch), Len(NDot), Len(NDDot), Len(BStar), Len(Elset), Len(Rev), Len(Inc), Len(Raan), Len(Argp), Len(Anom), Len(Ecc), Len(Mean)>>
Fields == 1 .. 15
\* ---- what they become ----------------------------------------------------------------------------------------
Alpha5(n) == IF n < 100000 THEN Z(n, 5) ELSE Letters[n \div 10000 - 9] \o Z(n % 10000, 4)
Round10(n) == (n + 5) \div 10
EpochOf(e) == LET q == Round10(e[3]) IN
              IF q < 100000000 THEN <<e[1], e[2], q>>
              ELSE IF e[2] = YearDays(e[1]) THEN <<e[1] + 1, 1, 0>> ELSE <<e[1], e[2] + 1, 0>>
ExpOf(x) == LET m == x[2]  e == x[3]
                s == IF e < -9 THEN -9 - e ELSE 0
                q == IF m = 0 \/ s > 7 THEN 0 ELSE (m + 5 * Pow10(1 + s)) \div Pow10(2 + s)
                f == IF e < -9 THEN -9 ELSE e
            IN IF q = 0 THEN <<x[1], 0, 0>> ELSE IF q = 100000 THEN <<x[1], 10000, f + 1>> ELSE <<x[1], q, f>>
MeanOf(x) == LET q == Round10(x[2]) IN IF q = 100000000 THEN <<x[1] + 1, 0>> ELSE <<x[1], q>>
AngleOf(a) == IF a < 0 THEN - Round10(-a) ELSE Round10(a)
AngleFits(a) == a # NaN /\ AngleOf(a) < 10000000 /\ AngleOf(a) > -1000000
ExpFits(x) == x[2] # NaN /\ ExpOf(x)[3] <= 9
EccFits(x) == x >= 0 /\ x < 100000000 /\ Round10(x) < 10000000
VARIABLES dev, edits, done
vars == <<dev, edits, done>>
V(f, menu) == menu[IF f \in DOMAIN dev THEN dev[f] ELSE 1]
Fits == /\ V(1, Norad) < 340000
        /\ Len(V(3, Desig)) <= 8 /\ V(3, Desig) # "98067~"
        /\ EpochOf(V(4, Epoch))[1] \in 1957 .. 2056
        /\ V(5, NDot)[2] # NaN /\ Round10(V(5, NDot)[2]) < 100000000
        /\ ExpFits(V(6, NDDot)) /\ ExpFits(V(7, BStar))
        /\ V(8, Elset) <= 9999 /\ V(9, Rev) <= 99999
        /\ AngleFits(V(10, Inc)) /\ AngleFits(V(11, Raan)) /\ AngleFits(V(12, Argp)) /\ AngleFits(V(13, Anom))
        /\ EccFits(V(14, Ecc))
        /\ V(15, Mean)[1] # NaN /\ MeanOf(V(15, Mean))[1] < 100
Sgn(s) == IF s = "-" THEN "-" ELSE " "
ShowAngle(a) == LET q == AngleOf(a) IN Left(" ", 8, (IF q < 0 THEN "-" ELSE "") \o ToString(Abs(q) \div 10000) \o "." \o Z(Abs(q) % 10000, 4))
ShowExp(x) == LET r == ExpOf(x) IN IF r[2] = 0 THEN " 00000-0" ELSE Sgn(r[1]) \o Z(r[2], 5) \o (IF r[3] < 0 THEN "-" ELSE "+") \o ToString(Abs(r[3]))
Right(s, w) == s \o Rep(" ", w - Len(s))
Body1 == LET e == EpochOf(V(4, Epoch)) IN
         "1 " \o Alpha5(V(1, Norad)) \o V(2, Class) \o " " \o Right(V(3, Desig), 8) \o " " \o Z(e[1] % 100, 2) \o Z(e[2], 3) \o "." \o Z(e[3], 8) \o " "
         \o Sgn(V(5, NDot)[1]) \o "." \o Z(Round10(V(5, NDot)[2]), 8) \o " " \o ShowExp(V(6, NDDot)) \o " " \o ShowExp(V(7, BStar)) \o " 0 " \o Left(" ", 4, ToString(V(8, Elset)))
Body2 == LET m == MeanOf(V(15, Mean)) IN
         "2 " \o Alpha5(V(1, Norad)) \o " " \o ShowAngle(V(10, Inc)) \o " " \o ShowAngle(V(11, Raan)) \o " " \o Z(Round10(V(14, Ecc)), 7) \o " " \o ShowAngle(V(12, Argp)) \o " "
         \o ShowAngle(V(13, Anom)) \o " " \o Left(" ", 2, ToString(m[1])) \o "." \o Z(m[2], 8) \o Left(" ", 5, ToString(V(9, Rev)))
Card == [norad |-> V(1, Norad), class |-> V(2, Class), desig |-> V(3, Desig), epoch |-> EpochOf(V(4, Epoch)), ndot |-> <<V(5, NDot)[1], Round10(V(5, NDot)[2])>>,
         nddot |-> ExpOf(V(6, NDDot)), bstar |-> ExpOf(V(7, BStar)), elset |-> V(8, Elset), rev |-> V(9, Rev), inc |-> AngleOf(V(10, Inc)), raan |-> AngleOf(V(11, Raan)),
         argp |-> AngleOf(V(12, Argp)), anom |-> AngleOf(V(13, Anom)), ecc |-> Round10(V(14, Ecc)), mean |-> MeanOf(V(15, Mean))]
\* the designator of an orbit mean-elements message names the year in full
IsDigit(c) == \E d \in 1 .. 10 : Digits[d] = c
LongId(s) == IF Len(s) < 5 \/ ~IsDigit(SubSeq(s, 1, 1)) \/ ~IsDigit(SubSeq(s, 2, 2)) THEN s
             ELSE (IF Weight(SubSeq(s, 1, 1)) * 10 + Weight(SubSeq(s, 2, 2)) >= 57 THEN "19" ELSE "20") \o SubSeq(s, 1, 2) \o "-" \o SubSeq(s, 3, Len(s))
Raw == [norad |-> V(1, Norad), class |-> V(2, Class), desig |-> V(3, Desig), epoch |-> V(4, Epoch), ndot |-> V(5, NDot),
        nddot |-> V(6, NDDot), bstar |-> V(7, BStar), elset |-> V(8, Elset), rev |-> V(9, Rev), inc |-> V(10, Inc), raan |-> V(11, Raan),
        argp |-> V(12, Argp), anom |-> V(13, Anom), ecc |-> V(14, Ecc), mean |-> V(15, Mean)]
\* ---- reading -------------------------------------------------------------------------------------------------
\* text put over columns (line, first column), the field it concerns and its value; <<>> when it has to be refused
Ok(v) == <<v>>
No == <<>>
E(l, c, t, f, v) == [l |-> l, c |-> c, t |-> t, f |-> f, v |-> v]
ExpTexts(c, f) == <<E(1, c, " 12345-6", f, Ok(<<"+", 12345, -6>>)), E(1, c, "+54321+1", f, Ok(<<"+", 54321, 1>>)), E(1, c, "-00000-0", f, Ok(<<"-", 0, 0>>)),
                    E(1, c, "-99999+9", f, Ok(<<"-", 99999, 9>>)), E(1, c, "        ", f, Ok(<<"+", 0, 0>>)),
                    \* the mantissa is a decimal fraction however many digits there are
                    E(1, c, "  1234-6", f, Ok(<<"+", 12340, -6>>)), E(1, c, " 5-3    ", f, Ok(<<"+", 50000, -3>>)), E(1, c, "-123+1  ", f, Ok(<<"-", 12300, 1>>)), E(1, c, " 00120-2", f, Ok(<<"+", 120, -2>>)),
                    E(1, c, "-012-2  ", f, Ok(<<"-", 1200, -2>>)),
                    E(1, c, " 1234 -6", f, No), E(1, c, "   12345", f, No),
                    E(1, c, "     NaN", f, No), E(1, c, " 1234x-6", f, No), E(1, c, " .1234-6", f, No), E(1, c, "-       ", f, No)>>
AngleTexts(c, f) == <<E(2, c, "180.0000", f, Ok(1800000)), E(2, c, "  0.0001", f, Ok(1)), E(2, c, "     NaN", f, No), E(2, c, "     inf", f, No), E(2, c, "        ", f, No), E(2, c, " 51.6 16", f, No), E(2, c, "51,64160", f, No)>>
Edits == <<E(0, 3, " 5544", "norad", Ok(5544)), E(0, 3, "E8493", "norad", Ok(148493)), E(0, 3, "Z9999", "norad", Ok(339999)), E(0, 3, "00005", "norad", Ok(5)), E(0, 3, "N0000", "norad", Ok(220000)), E(0, 3, "P0001", "norad", Ok(230001)),
           E(0, 3, "I0000", "norad", No), E(0, 3, "O0000", "norad", No), E(0, 3, "e8493", "norad", No), E(0, 3, "E84 3", "norad", No), E(0, 3, "     ", "norad", No), E(0, 3, "-5544", "norad", No), E(0, 3, "AA000", "norad", No),
           E(1, 3, "25545", "norad", No), E(2, 3, "25545", "norad", No), E(2, 3, "A5544", "norad", No),
           E(1, 8, "C", "class", Ok("C")), E(1, 8, "S", "class", Ok("S")), E(1, 8, "X", "class", No), E(1, 8, "u", "class", No), E(1, 8, " ", "class", No),
           E(1, 10, "98067ABC", "desig", Ok("98067ABC")), E(1, 10, "        ", "desig", Ok("")), E(1, 10, "  67A   ", "desig", Ok("67A")),
           E(1, 19, "56", "year", Ok(2056)), E(1, 19, "72", "year", Ok(1972)), E(1, 19, "61", "year", Ok(1961)), E(1, 19, "99", "year", Ok(1999)), E(1, 19, "00", "year", Ok(2000)), E(1, 19, "-5", "year", No), E(1, 19, "+8", "year", No), E(1, 19, "  ", "year", No), E(1, 19, "x8", "year", No),
           E(1, 21, "001.00000000", "day", Ok(<<1, 0>>)), E(1, 21, "365.99999999", "day", Ok(<<365, 99999999>>)), E(1, 21, "366.00000001", "day", Ok(<<366, 1>>)), E(1, 21, "367.00000000", "day", No), E(1, 21, "000.50000000", "day", No),
           E(1, 21, "-01.50000000", "day", No), E(1, 21, "         NaN", "day", No), E(1, 21, "            ", "day", No), E(1, 21, "264,51782528", "day", No),
           E(1, 34, " .00002182", "ndot", Ok(<<"+", 2182>>)), E(1, 34, "-.99999999", "ndot", Ok(<<"-", 99999999>>)), E(1, 34, "+.00000100", "ndot", Ok(<<"+", 100>>)), E(1, 34, "       nan", "ndot", No), E(1, 34, "       inf", "ndot", No),
           E(1, 34, " .0000 182", "ndot", No), E(1, 34, "          ", "ndot", No)>>
         \o ExpTexts(45, "nddot") \o ExpTexts(54, "bstar")
         \o <<E(1, 65, "   0", "elset", Ok(0)), E(1, 65, "9999", "elset", Ok(9999)), E(1, 65, "0007", "elset", Ok(7)), E(1, 65, "  -1", "elset", No), E(1, 65, "  +1", "elset", No), E(1, 65, "  1x", "elset", No),
              E(2, 27, "0000000", "ecc", Ok(0)), E(2, 27, "9999999", "ecc", Ok(9999999)), E(2, 27, "-000001", "ecc", No), E(2, 27, "000 001", "ecc", No), E(2, 27, "       ", "ecc", No), E(2, 27, "0.00001", "ecc", No)>>
         \o AngleTexts(9, "inc") \o AngleTexts(18, "raan") \o AngleTexts(35, "argp") \o AngleTexts(44, "anom")
         \o <<E(2, 53, "16.12345678", "mean", Ok(<<16, 12345678>>)), E(2, 53, " 1.00270000", "mean", Ok(<<1, 270000>>)), E(2, 53, "        inf", "mean", No), E(2, 53, "        NaN", "mean", No), E(2, 53, "           ", "mean", No), E(2, 53, "15.7 125391", "mean", No),
              E(2, 64, "    0", "rev", Ok(0)), E(2, 64, "99999", "rev", Ok(99999)), E(2, 64, "   -1", "rev", No), E(2, 64, "   +1", "rev", No), E(2, 64, "1.500", "rev", No),
              \* damage: "~~" stands for one character of two bytes
              E(1, 1, "3", "lead", No), E(2, 1, "1", "lead", No), E(1, 7, "~~", "bytes", No), E(1, 20, "~~", "bytes", No), E(1, 10, "~~", "bytes", No), E(2, 33, "~~", "bytes", No), E(2, 67, "~~", "bytes", No), E(1, 68, "~~", "tail", No),
              E(1, 69, "#", "check", No), E(2, 69, "#", "check", No), E(1, 69, "x", "tail", No), E(2, 69, " ", "tail", No),
              E(1, 70, "0", "length", No), E(2, 70, " ", "length", No), E(1, 69, "", "length", No), E(2, 69, "", "length", No)>>
Over(s, e) == SubSeq(s, 1, e.c - 1) \o e.t \o SubSeq(s, e.c + Len(e.t), Len(s))
\* damage to the end of the line is done after the checksum is put in
Late(e) == e.f \in {"check", "tail", "length"}
RECURSIVE Put(_, _, _, _)
Put(s, l, k, late) == IF k = 0 THEN s
                      ELSE LET e == Edits[edits[k]]  r == Put(s, l, k - 1, late) IN
                           IF e.l \notin {0, l} \/ Late(e) # late THEN r
                           ELSE IF e.f = "check" THEN SubSeq(r, 1, 68) \o ToString((Sum(r, 68) + 1) % 10)
                           ELSE IF e.f = "length" /\ e.t = "" THEN SubSeq(r, 1, 68)
                           ELSE Over(r, e)
Line(body, l) == LET b == Put(body, l, Len(edits), FALSE) IN Put(b \o Check(b), l, Len(edits), TRUE)
Get(f, old) == IF \E k \in DOMAIN edits : Edits[edits[k]].f = f THEN Edits[edits[CHOOSE k \in DOMAIN edits : Edits[edits[k]].f = f]].v[1] ELSE old
ReadEpoch == LET y == Get("year", 2008)  d == Get("day", <<264, 51782528>>) IN <<y, d[1], d[2]>>
Readable == /\ \A k \in DOMAIN edits : Edits[edits[k]].v # No
            /\ ReadEpoch[2] <= YearDays(ReadEpoch[1])
ReadCard == [norad |-> Get("norad", 25544), class |-> Get("class", "U"), desig |-> Get("desig", "98067A"), epoch |-> ReadEpoch, ndot |-> Get("ndot", <<"-", 2182>>),
             nddot |-> Get("nddot", <<"+", 0, 0>>), bstar |-> Get("bstar", <<"-", 11606, -4>>), elset |-> Get("elset", 292), rev |-> Get("rev", 56353), inc |-> Get("inc", 516416),
             raan |-> Get("raan", 2474627), argp |-> Get("argp", 1305360), anom |-> Get("anom", 3250288), ecc |-> Get("ecc", 6703), mean |-> Get("mean", <<15, 72125391>>)]
Names == <<<<"-", "">>, <<"ISS (ZARYA)", "ISS (ZARYA)">>, <<"0 VANGUARD 1", "VANGUARD 1">>, <<"   ", "">>, <<"0 ", "">>, <<"  COSMOS 0 1 ", "COSMOS 0 1">>>>
\* ---- states --------------------------------------------------------------------------------------------------
Init == dev = <<>> /\ edits = <<>> /\ done = FALSE
Set == /\ Mode = "write" /\ ~done /\ Cardinality(DOMAIN dev) < MaxDev
       /\ \E f \in Fields : /\ \A g \in DOMAIN dev : g < f
                            /\ \E k \in 2 .. Count[f] : dev' = dev @@ (f :> k)
       /\ UNCHANGED <<edits, done>>
Edit == /\ Mode = "read" /\ ~done /\ Len(edits) < MaxDev
        /\ \E k \in 1 .. Len(Edits) :
              /\ \A j \in DOMAIN edits : edits[j] < k /\ Edits[edits[j]].f # Edits[k].f /\ ~(Late(Edits[edits[j]]) /\ Late(Edits[k]))
              /\ edits' = Append(edits, k)
        /\ UNCHANGED <<dev, done>>
Finish == ~done /\ done' = TRUE /\ UNCHANGED <<dev, edits>>
Next == Set \/ Edit \/ Finish
Spec == Init /\ [][Next]_vars
\* every line that is written has 69 columns and a digit at its end
Shape == (done /\ Mode = "write" /\ Fits) => Len(Body1) = 68 /\ Len(Body2) = 68
\* the base card is the textbook's
Textbook == (done /\ dev = <<>> /\ edits = <<>>) =>
    /\ Body1 \o Check(Body1) = "1 25544U 98067A   08264.51782528 -.00002182  00000-0 -11606-4 0  2927"
    /\ Body2 \o Check(Body2) = "2 25544  51.6416 247.4627 0006703 130.5360 325.0288 15.72125391563537"
Emit == done => PrintT("SCN " \o ToJson(
    IF Mode = "write" THEN [mode |-> Mode, id |-> LongId(V(3, Desig)), raw |-> Raw, ok |-> Fits, card |-> IF Fits THEN <<Card>> ELSE <<>>, l1 |-> IF Fits THEN Body1 \o Check(Body1) ELSE "", l2 |-> IF Fits THEN Body2 \o Check(Body2) ELSE ""]
    ELSE LET n == Names[((IF edits = <<>> THEN 1 ELSE edits[1]) % Len(Names)) + 1] IN
         [mode |-> Mode, ok |-> Readable, id |-> LongId(Get("desig", "98067A")), l1 |-> Line(Body1, 1), l2 |-> Line(Body2, 2), card |-> IF Readable THEN <<ReadCard>> ELSE <<>>, name |-> n]))
=============================================================================

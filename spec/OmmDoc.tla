------------------------------- MODULE OmmDoc -------------------------------
\* Orbit mean-elements messages in their three encodings: which texts a field may hold, which fields may be absent, and
\* what the message then says. Mode "read" varies the fields of a message; mode "hold" varies the values of a record that
\* is written and read back.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode, MaxDev, Encodings, Layouts
Fields == <<"OBJECT_NAME", "OBJECT_ID", "TIME_SYSTEM", "MEAN_ELEMENT_THEORY", "EPOCH", "MEAN_MOTION", "ECCENTRICITY", "INCLINATION", "RA_OF_ASC_NODE", "ARG_OF_PERICENTER", "MEAN_ANOMALY",
            "EPHEMERIS_TYPE", "CLASSIFICATION_TYPE", "NORAD_CAT_ID", "ELEMENT_SET_NO", "REV_AT_EPOCH", "BSTAR", "MEAN_MOTION_DOT", "MEAN_MOTION_DDOT">>
Gone == "(absent)"
\* [t |-> text, ok |-> may be read, v |-> what it means]
Y(t, v) == [t |-> t, ok |-> TRUE, v |-> v]
N(t) == [t |-> t, ok |-> FALSE, v |-> ""]
Same(t) == Y(t, t)
Bad == <<N("NaN"), N("inf"), N("-inf"), N("abc"), N(""), N("1.5.2"), N("12 5")>>
Number(base) == <<Same(base), Same("1e1"), Same("0"), Same("12.0625")>> \o Bad
Required(base) == Number(base) \o <<N(Gone)>>
Optional(base) == Number(base) \o <<Y(Gone, "0"), Same("-1.5E-4")>>
Counter(base, top, over) == <<Same(base), Same("0"), Same(top), N(over), N("-1"), N("1.5"), N("abc"), Y(Gone, "0")>>
Menu == << <<Same("ISS (ZARYA)"), Same("A = B"), Same("COMMENT X"), N(Gone)>>,
           <<Same("1998-067A"), Same("UNKNOWN"), N(Gone)>>,
           <<Same("UTC"), Same("utc"), N("TAI"), N("TT"), Y(Gone, "UTC")>>,
           <<Same("SGP4"), Same("sgp4"), N("DSST"), N("SGP4-XP"), Y(Gone, "SGP4")>>,
           <<Same("2024-02-29T23:59:59.5"), Y("2024-01-01T00:00:00Z", "2024-01-01T00:00:00"), Y("2024-01-01T06:00:00.25+00:00", "2024-01-01T06:00:00.25"), Same("1999-12-31T00:00:00.000001"),
             N("2024-01-01T06:00:00+02:00"), N("2024-01-01T06:00:00-05:00"), N("2023-02-29T00:00:00"), N("2024-13-01T00:00:00"), N("2024-01-01T24:00:01"), N("2024-01-01T00:60:00"), N("2024-01-01"), N("yesterday"), N(""), N(Gone)>>,
           Required("15.72125391"), Required("0.0006703"), Required("51.6416"), Required("247.4627"), Required("130.536"), Required("325.0288"),
           Counter("0", "255", "256"),
           <<Same("U"), Same("C"), Same("S"), N("X"), N("u"), Y(Gone, "U")>>,
           <<Same("25544"), Same("5"), Same("99999"), Same("100000"), Same("339999"), Same("340000"), Same("999999999"), N("4294967296"), N("-1"), N("E84 3"), N("I0000"), N("1.5"), N(""), N(Gone)>>,
           Counter("292", "65535", "65536"), Counter("56353", "4294967295", "4294967296"),
           Optional("-0.11606e-4"), Optional("-2.182E-5"), Optional("0") >>
\* values of a record, as decimal text; the harness makes the record of them
Hold == << <<"ISS (ZARYA)", "A&B <C> \"D\" 'E'", "A = B", "TWO~LINES", "COMMENT", "&amp;">>, <<"1998-067A", "X&Y", "TWO~LINES">>, <<"UTC">>, <<"SGP4">>,
           <<"2024-02-29T23:59:59.5", "2024-01-01T00:00:00", "1999-12-31T00:00:00.000001", "2016-12-31T23:59:59.9">>,
           <<"15.72125391", "0", "1.5", "NaN">>, <<"0.0006703", "0", "0.9999999", "NaN">>, <<"51.6416", "0", "180", "NaN">>, <<"247.4627", "359.9999", "0.0001">>, <<"130.536", "359.9999">>, <<"325.0288", "359.9999", "inf">>,
           <<"0", "4", "255">>, <<"U", "C", "S">>, <<"25544", "5", "99999", "100000", "339999", "340000", "4294967295">>, <<"292", "0", "65535">>, <<"56353", "0", "4294967295">>,
           <<"-0.11606e-4", "0", "1e-12", "1e5", "NaN">>, <<"-2.182E-5", "0", "1e-9", "-3.5", "inf">>, <<"0", "1.25e-13", "-1e-3", "NaN">> >>
VARIABLES dev, enc, layout, done
vars == <<dev, enc, layout, done>>
Init == dev = <<>> /\ enc \in Encodings /\ layout \in Layouts /\ done = FALSE
Size(f) == IF Mode = "read" THEN Len(Menu[f]) ELSE Len(Hold[f])
Set == /\ ~done /\ Cardinality(DOMAIN dev) < MaxDev
       /\ \E f \in 1 .. Len(Fields) : /\ \A g \in DOMAIN dev : g < f
                                      /\ \E k \in 2 .. Size(f) : dev' = dev @@ (f :> k)
       /\ UNCHANGED <<enc, layout, done>>
Finish == ~done /\ done' = TRUE /\ UNCHANGED <<dev, enc, layout>>
Next == Set \/ Finish
Spec == Init /\ [][Next]_vars
At(f) == IF f \in DOMAIN dev THEN dev[f] ELSE 1
Text(f) == Menu[f][At(f)]
Readable == \A f \in DOMAIN dev : Text(f).ok
Value(f) == Hold[f][At(f)]
Holdable == /\ \A f \in DOMAIN dev : Value(f) \notin {"NaN", "inf"}
            /\ enc = "kvn" => \A f \in 1 .. 2 : Value(f) # "TWO~LINES"
\* nothing that cannot be read is passed over, wherever in the message it stands
Never == \A f \in DOMAIN dev : (Mode = "read" /\ ~Text(f).ok) => ~Readable
Emit == done => PrintT("SCN " \o ToJson(
    IF Mode = "read" THEN [mode |-> Mode, enc |-> enc, layout |-> layout, ok |-> Readable, fields |-> [f \in 1 .. Len(Fields) |-> <<Fields[f], Text(f).t>>], want |-> [f \in 1 .. Len(Fields) |-> Text(f).v]]
    ELSE [mode |-> Mode, enc |-> enc, layout |-> layout, ok |-> Holdable, fields |-> [f \in 1 .. Len(Fields) |-> <<Fields[f], Value(f)>>], want |-> [f \in 1 .. Len(Fields) |-> Value(f)]]))
=============================================================================

------------------------------ MODULE AzSearch ------------------------------
\* The azimuth of a body along a path, and what the azimuth searches answer on a window.
\* Azimuth is counted in units of 5 degrees (72 to the circle); a piece of the path moves
\* linearly by a multiple of 30 degrees in 36 ticks, so that every passage of a whole unit
\* happens at a whole tick.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
MovesQ == {-18, -6, 6, 12, 18}
MovesT == {-18, -12, -6, 0, 6, 12, 18}
StartsQ == {0, 42, 66}
StartsT == {0, 12, 42, 66}
WindowsQ == {<<0, 108>>, <<7, 90>>, <<30, 78>>}
WindowsT == {<<0, 108>>, <<7, 90>>, <<30, 78>>, <<54, 101>>, <<36, 72>>}
WindowsD == {<<0, 144>>, <<7, 130>>, <<66, 115>>}
BandsQ == {<<1, 2>>, <<35, 38>>, <<65, 7>>, <<71, 1>>, <<10, 50>>, <<-4, 9>>, <<2, 1>>}
BandsT == BandsQ \cup {<<0, 72>>, <<50, 10>>, <<5, 41>>, <<41, 5>>, <<20, 92>>, <<-71, -1>>, <<13, 14>>}
BearingsQ == {0, 1, 6, 36, 44, 71}
BearingsT == BearingsQ \cup {-7, 12, 18, 30, 61, 66, 73}
CONSTANTS Starts, Moves, Pieces, Windows, Bands, Bearings, Hints, Shapes
VARIABLES start, path, win, hint, shape, done
vars == <<start, path, win, hint, shape, done>>
T == 36
C == 72
Init == start \in Starts /\ path = <<>> /\ win = <<0, 0>> /\ hint = 0 /\ shape = "line" /\ done = FALSE
Move(d) == ~done /\ Len(path) < Pieces /\ path' = Append(path, d) /\ UNCHANGED <<start, win, hint, shape, done>>
\* on a "line" the azimuth moves evenly; in a "swing" all of a piece's motion happens within a
\* few seconds of its middle, as for a body that passes close to the zenith
Ask(w, h, s) == /\ ~done /\ Len(path) = Pieces /\ done' = TRUE /\ win' = w /\ hint' = h /\ shape' = s /\ UNCHANGED <<start, path>>
                /\ s = "swing" => w[1] % T # 18 /\ w[2] % T # 18
Next == (\E d \in Moves : Move(d)) \/ (\E w \in Windows, h \in Hints, s \in Shapes : Ask(w, h, s))
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
RECURSIVE Node(_)
Node(i) == IF i = 0 THEN start ELSE Node(i - 1) + path[i]
\* unwrapped azimuth times 72 at half tick h (0 .. 72 * Pieces)
Az(h) == LET i == IF h = 2 * T * Pieces THEN Pieces - 1 ELSE h \div (2 * T) 
             x == h - 2 * T * i
         IN IF shape = "line" THEN 72 * Node(i) + x * path[i + 1]
            ELSE IF x < T THEN 72 * Node(i) ELSE IF x = T THEN 72 * Node(i) + 36 * path[i + 1] ELSE 72 * Node(i + 1)
Mod(x, m) == ((x % m) + m) % m
\* is the azimuth (times 72) inside the band <<a, b>> (units)? a > b: the arc through north
Within(x, a, b) == IF b - a >= C THEN TRUE ELSE Mod(x - 72 * a, 72 * C) <= 72 * (b - a)
In(x, a, b) == IF a <= b THEN Within(x, a, b) ELSE ~(Mod(x - 72 * b, 72 * C) < 72 * (a - b))
Ticks == win[1] .. (win[2] - 1)
Inside(bd) == {t \in Ticks : In(Az(2 * t + 1), bd[1], bd[2])}
RECURSIVE Runs(_, _, _)
Runs(S, t, open) ==
    IF t = win[2] THEN (IF open >= 0 THEN <<<<open, t>>>> ELSE <<>>)
    ELSE IF t \in S THEN Runs(S, t + 1, IF open >= 0 THEN open ELSE t)
    ELSE (IF open >= 0 THEN <<<<open, t>>>> ELSE <<>>) \o Runs(S, t + 1, -1)
Periods(bd) == Runs(Inside(bd), win[1], -1)
\* a passage of bearing b at tick t: the azimuth is at b there and on different sides just before and after
At(t, b) == Mod(Az(2 * t) - 72 * b, 72 * C) = 0
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Swung(t, b) == LET i == t \div T + 1 IN t % T = 18 /\ path[i] # 0 /\
    LET k == Mod(IF path[i] > 0 THEN b - Node(i - 1) ELSE b - Node(i), C) IN k > 0 /\ k < (IF path[i] > 0 THEN path[i] ELSE -path[i])
Pass(t, b) == /\ t > win[1] /\ t < win[2] /\ (IF shape = "line" THEN At(t, b) ELSE Swung(t, b))
              /\ Sgn(Az(2 * t + 1) - Az(2 * t)) * Sgn(Az(2 * t) - Az(2 * t - 1)) = 1
RECURSIVE Passages(_, _)
Passages(b, t) == IF t >= win[2] THEN <<>> ELSE (IF Pass(t, b) THEN <<<<t, Sgn(Az(2 * t + 1) - Az(2 * t))>>>> ELSE <<>>) \o Passages(b, t + 1)
\* does the path touch b without passing it, or rest on it, or meet it at the window's edge?
Touch(b) == \E t \in win[1] .. win[2] : At(t, b) /\ ~Pass(t, b)
\* stays and passages closer together than one scan step may go unnoticed
Step == IF hint = 0 THEN 8 ELSE hint
EdgeOf(bd, t) == At(t, bd[1]) \/ At(t, bd[2])
Brief(bd) == LET p == Periods(bd)
                 Cut(t) == (t > win[1] /\ t < win[2]) \/ EdgeOf(bd, t) IN
    \/ \E i \in DOMAIN p : Cut(p[i][1]) /\ Cut(p[i][2]) /\ p[i][2] - p[i][1] <= Step
    \/ \E i \in 2 .. Len(p) : p[i][1] - p[i - 1][2] <= Step
    \/ p # <<>> /\ EdgeOf(bd, win[1]) /\ p[1][1] > win[1] /\ p[1][1] - win[1] <= Step
    \/ p # <<>> /\ EdgeOf(bd, win[2]) /\ p[Len(p)][2] < win[2] /\ win[2] - p[Len(p)][2] <= Step
\* resting on an edge is neither in nor out
Rests(bd) == IF shape = "swing" THEN \E i \in 0 .. Pieces, k \in 1 .. 2 : Mod(Node(i) - bd[k], C) = 0 ELSE \E i \in 1 .. Pieces : path[i] = 0 /\ EdgeOf(bd, (i - 1) * T)
BriefPass(b) == LET p == Passages(b, win[1]) IN
    \/ \E i \in 2 .. Len(p) : p[i][2] # p[i - 1][2] /\ p[i][1] - p[i - 1][1] <= Step
    \/ p # <<>> /\ At(win[1], b) /\ p[1][1] - win[1] <= Step
    \/ p # <<>> /\ At(win[2], b) /\ win[2] - p[Len(p)][1] <= Step
RECURSIVE Turns(_)
Turns(i) == IF i >= Pieces THEN <<>>
            ELSE (IF i * T > win[1] /\ i * T < win[2] /\ path[i] * path[i + 1] < 0 THEN <<<<i * T, Mod(Node(i), C), IF path[i] > 0 THEN "max" ELSE "min">>>> ELSE <<>>) \o Turns(i + 1)
HasRest == shape = "swing" \/ \E i \in 1 .. Pieces : path[i] = 0
Flat == \E i \in 1 .. Pieces : path[i] = 0
---------------------------------------------------------------------------
\* inside and outside share the window; opposite bands are complementary
Complementary == done => \A bd \in Bands : bd[1] < bd[2] /\ bd[2] - bd[1] < C =>
    LET n == Inside(bd)  c == Inside(<<bd[2], bd[1]>>) IN n \cup c = Ticks
\* passages alternate unless the path winds all the way round between them
Alternate == done => \A b \in Bearings : LET p == Passages(b, win[1]) IN
    \A i \in 1 .. Len(p) - 1 : p[i][2] = p[i + 1][2] => (\E k \in p[i][1] .. p[i + 1][1] : Mod(Az(2 * k) - 72 * b, 72 * C) > 71 * 35) \/ Touch(b)
Emit == done => PrintT("SCN " \o ToJson([start |-> start, path |-> path, win |-> win, hint |-> hint, shape |-> shape,
    bands |-> [i \in 1 .. Cardinality(Bands) |-> LET bd == SetToSeq(Bands)[i] IN [b |-> bd, in |-> Periods(bd), brief |-> Brief(bd), rests |-> Rests(bd)]],
    bearings |-> [i \in 1 .. Cardinality(Bearings) |-> LET b == SetToSeq(Bearings)[i] IN [b |-> b, pass |-> Passages(b, win[1]), touch |-> Touch(b), brief |-> BriefPass(b)]],
    turns |-> Turns(1), rest |-> HasRest]))
=============================================================================

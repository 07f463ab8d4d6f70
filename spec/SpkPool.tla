------------------------------ MODULE SpkPool ------------------------------
\* A pool of loaded SPK kernel files and the state queries it answers.
\* A segment gives the state of body t relative to body c over a span of epochs.
\* A file answers a query by a shortest chain of its segments covering the epoch,
\* using, for each (t, c), the last such segment of the file; the pool asks the
\* files from the last loaded to the first.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
EdgesQ == {<<3, 0>>, <<399, 3>>, <<301, 3>>, <<301, 399>>}
EdgesT == EdgesQ \cup {<<3, 399>>}
SpansQ == {<<0, 2>>, <<2, 4>>}
SpansT == SpansQ \cup {<<0, 4>>}
CONSTANTS Bodies, Edges, Spans, UnsupKinds, MaxFiles, MaxTotal, Epochs
VARIABLES files, done
vars == <<files, done>>

RECURSIVE SumLen(_)
SumLen(fs) == IF fs = <<>> THEN 0 ELSE Len(Head(fs)) + SumLen(Tail(fs))
Total == SumLen(files)

Init == files = <<>> /\ done = FALSE
LoadFile == /\ ~done /\ Len(files) < MaxFiles /\ Total < MaxTotal
            /\ (files # <<>> => files[Len(files)] # <<>>)
            /\ files' = Append(files, <<>>) /\ UNCHANGED done
AddSegment(ed, sp, u) ==
    /\ ~done /\ files # <<>> /\ Total < MaxTotal
    /\ files' = [files EXCEPT ![Len(files)] = Append(@, [t |-> ed[1], c |-> ed[2], a |-> sp[1], b |-> sp[2], u |-> u])]
    /\ UNCHANGED done
Finish == /\ ~done /\ files # <<>> /\ files[Len(files)] # <<>> /\ done' = TRUE /\ UNCHANGED files
Next == LoadFile \/ (\E ed \in Edges, sp \in Spans, u \in UnsupKinds : AddSegment(ed, sp, u)) \/ Finish
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Covers(s, e) == s.a <= e /\ e <= s.b
\* the segments of a file in force at an epoch
InForce(f, e) == {i \in DOMAIN f : Covers(f[i], e) /\ ~\E j \in DOMAIN f : j > i /\ f[j].t = f[i].t /\ f[j].c = f[i].c /\ Covers(f[j], e)}
Steps(f, S, n) == {<<i, f[i].c>> : i \in {k \in S : f[k].t = n}} \cup {<<-i, f[i].t>> : i \in {k \in S : f[k].c = n}}
\* walks: records of the signed segments used, the node reached and the nodes visited
RECURSIVE Search(_, _, _, _)
Search(f, S, W, c) ==
    LET hit == {w \in W : w.at = c}
        nxt == UNION {{[p |-> Append(w.p, s[1]), at |-> s[2], seen |-> w.seen \cup {s[2]}] : s \in {x \in Steps(f, S, w.at) : x[2] \notin w.seen}} : w \in W}
    IN IF hit # {} THEN {w.p : w \in hit} ELSE IF nxt = {} THEN {} ELSE Search(f, S, nxt, c)
Chains(f, S, t, c) == Search(f, S, {[p |-> <<>>, at |-> t, seen |-> {t}]}, c)
Abs(x) == IF x < 0 THEN -x ELSE x
Unsupported(f, p) == \E k \in DOMAIN p : f[Abs(p[k])].u

NOCHAIN == "nochain"   COVERAGE == "coverage"   UNSUP == "unsupported"
Ans(st, ps) == [s |-> st, p |-> ps]
\* the admissible answers of one file; when several shortest chains exist any is admissible
FileAnswers(f, t, c, e) ==
    LET ch == Chains(f, InForce(f, e), t, c)
    IN IF ch # {} THEN {IF Unsupported(f, p) THEN Ans(UNSUP, <<>>) ELSE Ans("ok", p) : p \in ch}
       ELSE IF Chains(f, DOMAIN f, t, c) # {} THEN {Ans(COVERAGE, <<>>)} ELSE {Ans(NOCHAIN, <<>>)}
RECURSIVE PoolFrom(_, _, _, _)
PoolFrom(k, t, c, e) ==
    IF k = 0 THEN {[k |-> 0, s |-> NOCHAIN, p |-> <<>>]}
    ELSE LET as == FileAnswers(files[k], t, c, e)
         IN IF \E x \in as : x.s \in {NOCHAIN, COVERAGE} THEN PoolFrom(k - 1, t, c, e)
            ELSE {[k |-> k, s |-> x.s, p |-> x.p] : x \in as}
PoolAnswers(t, c, e) == PoolFrom(Len(files), t, c, e)

TypeOK == /\ Total <= MaxTotal /\ Len(files) <= MaxFiles
Reverse(p) == [i \in 1..Len(p) |-> -p[Len(p) + 1 - i]]
\* state(t, c) = -state(c, t)
Antisymmetric == done => \A k \in DOMAIN files, t, c \in Bodies, e \in Epochs : t < c =>
    {p \in Chains(files[k], InForce(files[k], e), t, c) : TRUE} = {Reverse(p) : p \in Chains(files[k], InForce(files[k], e), c, t)}
\* a chain links t to c through segments that cover the epoch
WellFormed == done => \A k \in DOMAIN files, t, c \in Bodies, e \in Epochs : t < c =>
    \A p \in Chains(files[k], InForce(files[k], e), t, c) :
        \A i \in DOMAIN p : Covers(files[k][Abs(p[i])], e)

Queries == {q \in Bodies \X Bodies \X Epochs : q[1] < q[2]}
\* answers other than "no chain", which is the default
Told(A, q) == ~(\A x \in A : x.s = NOCHAIN)
Emit == done => PrintT("SCN " \o ToJson([files |-> files,
          per |-> [k \in DOMAIN files |-> {[q |-> q, w |-> FileAnswers(files[k], q[1], q[2], q[3])] : q \in {x \in Queries : Told(FileAnswers(files[k], x[1], x[2], x[3]), x)}}],
          pool |-> {[q |-> q, w |-> PoolAnswers(q[1], q[2], q[3])] : q \in {x \in Queries : Told(PoolAnswers(x[1], x[2], x[3]), x)}}]))
=============================================================================

------------------------------ MODULE SpkStack ------------------------------
\* A stack of SPK segments (SpkKernelSet, RuntimeEphemeris): every query walks from a
\* body to the solar-system barycentre through, at each body, the last loaded segment
\* that covers the epoch and whose own centre resolves; the Earth also resolves from
\* the Earth-Moon barycentre and the Moon. Unsupported segments are dropped on load.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
SSB == 0  EMB == 3  EARTH == 399  MOON == 301  SUN == 10
EdgesQ == {<<3, 0>>, <<399, 3>>, <<301, 3>>, <<301, 399>>, <<3, 399>>, <<399, 0>>}
EdgesM == {<<3, 0>>, <<399, 3>>, <<301, 3>>, <<4, 0>>, <<10, 0>>}
EdgesT == EdgesQ \cup {<<10, 0>>}
SpansQ == {<<0, 2>>, <<2, 4>>}
SpansT == SpansQ \cup {<<0, 4>>}
SpansM == {<<0, 4>>, <<2, 4>>}
CONSTANTS Bodies, Edges, Spans, Kinds, MaxFiles, MaxTotal, Halves
VARIABLES files, done
vars == <<files, done>>
RECURSIVE SumLen(_)
SumLen(fs) == IF fs = <<>> THEN 0 ELSE Len(Head(fs)) + SumLen(Tail(fs))
Total == SumLen(files)
Init == files = <<>> /\ done = FALSE
LoadFile == /\ ~done /\ Len(files) < MaxFiles /\ Total < MaxTotal
            /\ (files # <<>> => files[Len(files)] # <<>>)
            /\ files' = Append(files, <<>>) /\ UNCHANGED done
AddSegment(ed, sp, u) ==
    /\ ~done /\ files # <<>> /\ Total < MaxTotal
    /\ files' = [files EXCEPT ![Len(files)] = Append(@, [t |-> ed[1], c |-> ed[2], a |-> sp[1], b |-> sp[2], u |-> u])]
    /\ UNCHANGED done
Finish == ~done /\ files # <<>> /\ files[Len(files)] # <<>> /\ done' = TRUE /\ UNCHANGED files
Next == LoadFile \/ (\E ed \in Edges, sp \in Spans, u \in Kinds : AddSegment(ed, sp, u)) \/ Finish
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
\* a file without any supported segment is rejected as a whole
Accepted(f) == \E i \in DOMAIN f : ~f[i].u
RECURSIVE Flat(_)
Flat(fs) == IF fs = <<>> THEN <<>> ELSE Flat(SubSeq(fs, 1, Len(fs) - 1)) \o
              SelectSeq(fs[Len(fs)], LAMBDA s : ~s.u)
Stack == Flat(files)
\* queries are put at half epochs h + 1/2
Cov(s, h) == s.a <= h /\ h < s.b
RECURSIVE Resolve(_, _, _), Try(_, _, _, _)
Ok(p) == <<TRUE, p>>     No == <<FALSE, <<>>>>
EdgeAt(t, c, h) == LET I == {i \in DOMAIN Stack : Stack[i].t = t /\ Stack[i].c = c /\ Cov(Stack[i], h)}
                   IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i
\* segments of body t from the last to the first
Try(t, h, seen, i) ==
    IF i = 0 THEN IF t # EARTH THEN No
                  ELSE LET emb == Resolve(EMB, h, seen)  m == EdgeAt(MOON, EMB, h)
                       IN IF emb[1] /\ m # 0 THEN Ok(Append(emb[2], <<m, "moon">>)) ELSE No
    ELSE IF Stack[i].t = t /\ Cov(Stack[i], h)
         THEN LET r == Resolve(Stack[i].c, h, seen)
              IN IF r[1] THEN Ok(Append(r[2], <<i, "+">>)) ELSE Try(t, h, seen, i - 1)
         ELSE Try(t, h, seen, i - 1)
Resolve(t, h, seen) == IF t = SSB THEN Ok(<<>>) ELSE IF t \in seen THEN No ELSE Try(t, h, seen \cup {t}, Len(Stack))
FromSSB(t, h) == Resolve(t, h, {})
\* barycentre shortcut: only the direct edges
Fast(p, h) == LET a == EdgeAt(p, SSB, h)  e == EdgeAt(EMB, SSB, h)  x == EdgeAt(EARTH, EMB, h)  m == EdgeAt(MOON, EMB, h)
              IN IF a = 0 \/ e = 0 \/ (x = 0 /\ m = 0) THEN [ok |-> FALSE, t |-> <<>>, o |-> <<>>]
                 ELSE [ok |-> TRUE, t |-> <<<<a, "+">>>>, o |-> <<<<e, "+">>>> \o (IF x # 0 THEN <<<<x, "+">>>> ELSE <<<<m, "moon">>>>)]

TypeOK == Total <= MaxTotal
\* a resolved chain is a path: each next body is the target of the next segment, epoch covered
PathOK == done => \A t \in Bodies, h \in Halves : LET r == FromSSB(t, h) IN r[1] =>
    /\ \A i \in DOMAIN r[2] : Cov(Stack[r[2][i][1]], h)
    /\ (r[2] # <<>> => Stack[r[2][1][1]].c = SSB)
    /\ \A i \in 1..(Len(r[2]) - 1) : LET p == r[2][i]  q == r[2][i + 1]
                                    IN q[2] = "+" => Stack[q[1]].c = (IF p[2] = "+" THEN Stack[p[1]].t ELSE EARTH)
\* whatever has a direct covering segment to the barycentre resolves
Complete == done => \A t \in Bodies, h \in Halves : EdgeAt(t, SSB, h) # 0 => FromSSB(t, h)[1]
\* nothing resolves without a segment or, for the Earth, its substitute
Sound == done => \A t \in Bodies \ {SSB, EARTH}, h \in Halves : FromSSB(t, h)[1] => \E i \in DOMAIN Stack : Stack[i].t = t /\ Cov(Stack[i], h)
Emit == done => PrintT("SCN " \o ToJson([files |-> files, acc |-> [k \in DOMAIN files |-> Accepted(files[k])],
     res |-> {[t |-> t, h |-> h, ok |-> FromSSB(t, h)[1], p |-> FromSSB(t, h)[2]] : t \in Bodies, h \in Halves},
     fast |-> {[h |-> h, f |-> Fast(4, h)] : h \in Halves},
     edge |-> {[t |-> x[1], c |-> x[2], h |-> h, i |-> EdgeAt(x[1], x[2], h)] : x \in {<<10, 0>>, <<3, 0>>, <<301, 3>>, <<399, 3>>}, h \in Halves}]))
=============================================================================

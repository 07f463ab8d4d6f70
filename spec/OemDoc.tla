------------------------------- MODULE OemDoc -------------------------------
\* An orbit ephemeris message as a sequence of parts, and what it says: the segments, each with
\* its metadata and its state rows in order.  Covariance and manoeuvre blocks and comments say
\* nothing; a part that is malformed makes the whole message meaningless.
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxParts, Metas, Epochs, Bads, Fields
VARIABLES doc, segs, ok
vars == <<doc, segs, ok>>
Init == doc = <<>> /\ segs = <<>> /\ ok = TRUE
InSegment == segs # <<>>
Rows == LET RECURSIVE N(_)
            N(i) == IF i = 0 THEN 0 ELSE N(i - 1) + Len(segs[i].rows) IN N(Len(segs))
Part(p) == doc' = Append(doc, p)
Meta(k) == Part([p |-> "meta", k |-> k]) /\ segs' = Append(segs, [k |-> k, rows |-> <<>>]) /\ ok' = ok
Partial(f) == Part([p |-> "partial", k |-> f]) /\ segs' = segs /\ ok' = FALSE
Row(e, more) == /\ InSegment /\ Part([p |-> more, k |-> e])
                /\ segs' = [segs EXCEPT ![Len(segs)].rows = Append(@, <<Rows + 1, e>>)] /\ ok' = ok
Bad(b) == InSegment /\ Part([p |-> "bad", k |-> b]) /\ segs' = segs /\ ok' = FALSE
Skip(s) == (s \in {"cov", "man"} => InSegment) /\ Part([p |-> s, k |-> 0]) /\ UNCHANGED <<segs, ok>>
Next == /\ ok /\ Len(doc) < MaxParts
        /\ \/ \E k \in Metas : Meta(k)
           \/ \E f \in Fields : Partial(f)
           \/ \E e \in Epochs : Row(e, "row") \/ (e = 1 /\ Row(e, "rowacc"))
           \/ \E b \in Bads : Bad(b)
           \/ \E s \in {"cov", "man", "note"} : Skip(s)
Spec == Init /\ [][Next]_vars
\* nothing that was said is lost, whatever follows, unless the message is meaningless
Kept == [][ok' => /\ Len(segs') >= Len(segs)
                  /\ \A i \in DOMAIN segs : segs'[i].k = segs[i].k /\ Len(segs'[i].rows) >= Len(segs[i].rows)]_vars
Numbered == \A i \in DOMAIN segs : \A j \in DOMAIN segs[i].rows : segs[i].rows[j][1] <= Rows
Emit == PrintT("SCN " \o ToJson([doc |-> doc, ok |-> ok /\ segs # <<>>, segs |-> segs]))
=============================================================================

------------------------------- MODULE NavDoc -------------------------------
\* A RINEX navigation file as a sequence of records, and what it says in each reading mode.  A
\* strict reader refuses a file with a bad record, a record cut short or no end of its header; a
\* permissive one loses a bad record and nothing else.
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxRecords, Styles, Times, Bads, Others, Cuts
VARIABLES header, doc, recs, strict, cut
vars == <<header, doc, recs, strict, cut>>
Init == header \in BOOLEAN /\ doc = <<>> /\ recs = <<>> /\ strict = header /\ cut = FALSE
Add(x) == doc' = Append(doc, x) /\ header' = header
Good(s, t) == Add(<<"gps", s, t>>) /\ recs' = Append(recs, <<Len(doc) + 1, t>>) /\ UNCHANGED <<strict, cut>>
Bad(b) == Add(<<"bad", b, 0>>) /\ strict' = FALSE /\ UNCHANGED <<recs, cut>>
Other(o) == Add(<<"other", o, 0>>) /\ UNCHANGED <<recs, strict, cut>>
Cut(k) == Add(<<"cut", k, 0>>) /\ strict' = FALSE /\ cut' = TRUE /\ recs' = recs
Next == /\ ~cut /\ Len(doc) < MaxRecords
        /\ \/ \E s \in Styles, t \in Times : Good(s, t)
           \/ \E b \in Bads : Bad(b)
           \/ \E o \in Others : Other(o)
           \/ \E k \in Cuts : Cut(k)
Spec == Init /\ [][Next]_vars
Kept == [][SubSeq(recs', 1, Len(recs)) = recs]_vars
\* without an end of the header there are no records
Emit == PrintT("SCN " \o ToJson([header |-> header, doc |-> doc, recs |-> IF header THEN recs ELSE <<>>, strict |-> strict]))
=============================================================================

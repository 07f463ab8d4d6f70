------------------------------- MODULE TdmDoc -------------------------------
\* A tracking data message as a sequence of lines and what it says: the metadata blocks and the
\* observations in order.  Key-value lines outside a block say nothing.
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLines, Lines
VARIABLES doc, where, cur, metas, obs, ok
vars == <<doc, where, cur, metas, obs, ok>>
Empty == [parts |-> 0, mode |-> FALSE, path |-> FALSE, ts |-> FALSE]
Init == doc = <<>> /\ where = "out" /\ cur = Empty /\ metas = <<>> /\ obs = <<>> /\ ok = TRUE
Line(l) ==
  /\ ok /\ Len(doc) < MaxLines /\ doc' = Append(doc, l)
  /\ CASE l = "meta[" -> where = "out" /\ where' = "meta" /\ cur' = Empty /\ UNCHANGED <<metas, obs, ok>>
       [] l = "]meta" -> where = "meta" /\ where' = "out" /\ metas' = Append(metas, cur) /\ cur' = Empty /\ UNCHANGED <<obs, ok>>
       [] l = "data[" -> where = "out" /\ where' = "data" /\ UNCHANGED <<cur, metas, obs, ok>>
       [] l = "]data" -> where = "data" /\ where' = "out" /\ UNCHANGED <<cur, metas, obs, ok>>
       [] l = "part" -> where # "data" /\ cur' = (IF where = "meta" THEN [cur EXCEPT !.parts = @ + 1] ELSE cur) /\ UNCHANGED <<where, metas, obs, ok>>
       [] l = "mode" -> where = "meta" /\ cur' = [cur EXCEPT !.mode = TRUE] /\ UNCHANGED <<where, metas, obs, ok>>
       [] l = "path" -> where = "meta" /\ cur' = [cur EXCEPT !.path = TRUE] /\ UNCHANGED <<where, metas, obs, ok>>
       [] l = "time" -> where = "meta" /\ cur' = [cur EXCEPT !.ts = TRUE] /\ UNCHANGED <<where, metas, obs, ok>>
       [] l \in {"RANGE", "DOPPLER_INSTANTANEOUS", "ANGLE_1", "ANGLE_2", "TRANSMIT_FREQ_1"} ->
            where = "data" /\ obs' = Append(obs, l) /\ UNCHANGED <<where, cur, metas, ok>>
       [] l \in {"nocolon", "novalue", "word"} -> where = "data" /\ ok' = FALSE /\ UNCHANGED <<where, cur, metas, obs>>
       [] OTHER -> UNCHANGED <<where, cur, metas, obs, ok>>    \* a comment or an empty line
Next == \E l \in Lines : Line(l)
Spec == Init /\ [][Next]_vars
Kept == [][Len(obs') >= Len(obs) /\ SubSeq(obs', 1, Len(obs)) = obs /\ Len(metas') >= Len(metas)]_vars
Emit == (where = "out" \/ ~ok) => PrintT("SCN " \o ToJson([doc |-> doc, metas |-> metas, obs |-> obs, ok |-> ok]))
=============================================================================

------------------------------- MODULE CrdDoc -------------------------------
\* A laser ranging file as a sequence of lines, and what it says in each reading mode: the normal
\* points in order, each with the system configuration and the date in force where it stands.  A
\* record carries only the second of the day, so a session that passes midnight goes on with the
\* seconds of the next day.  Time is in parts of a day, eight to the day.
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLines, Bads, Others, Starts
Parts == 8
VARIABLES doc, sess, sys, now, nps, strict
vars == <<doc, sess, sys, now, nps, strict>>
Init == doc = <<>> /\ sess = <<>> /\ sys = 0 /\ now = 0 /\ nps = <<>> /\ strict = TRUE
Add(l) == doc' = Append(doc, l)
\* a session starts at a part of a day, on a day of its own; with no session the date is unknown
Session(p) == Add(<<"H4", p, Len(doc) + 1>>) /\ sess' = <<Len(doc) + 1, p>> /\ now' = p /\ UNCHANGED <<sys, nps, strict>>
Config(c) == Add(<<"C0", c, 0>>) /\ sys' = c /\ UNCHANGED <<sess, now, nps, strict>>
\* observations of a pass follow its start within less than half a day
Point(d, own) == /\ sess # <<>> => sess[2] + d < sess[2] + Parts \div 2
                 /\ LET t == IF sess = <<>> THEN d ELSE sess[2] + d IN
                    /\ Add(<<"11", t % Parts, own>>)
                    /\ nps' = Append(nps, [n |-> Len(doc) + 1, day |-> IF sess = <<>> THEN -1 ELSE t \div Parts, part |-> t % Parts,
                                           base |-> IF sess = <<>> THEN 0 ELSE sess[1], sys |-> IF own # 0 THEN own ELSE sys])
                 /\ UNCHANGED <<sess, sys, now, strict>>
Raw == Add(<<"10", 0, 0>>) /\ UNCHANGED <<sess, sys, now, nps, strict>>
Bad(b) == Add(<<"bad", b, 0>>) /\ strict' = FALSE /\ UNCHANGED <<sess, sys, now, nps>>
Other(o) == Add(<<"other", o, 0>>) /\ UNCHANGED <<sess, sys, now, nps, strict>>
Next == /\ Len(doc) < MaxLines
        /\ \/ \E p \in Starts : Session(p)
           \/ \E c \in {1, 2} : Config(c)
           \/ \E d \in 0 .. 3, own \in {0, 3} : Point(d, own)
           \/ Raw
           \/ \E b \in Bads : Bad(b)
           \/ \E o \in Others : Other(o)
Spec == Init /\ [][Next]_vars
Kept == [][SubSeq(nps', 1, Len(nps)) = nps]_vars
NextDay == \A i \in DOMAIN nps : nps[i].day \in {-1, 0, 1}
Emit == PrintT("SCN " \o ToJson([doc |-> doc, nps |-> nps, strict |-> strict, dated |-> sess # <<>>]))
=============================================================================

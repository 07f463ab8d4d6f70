----------------------------- MODULE SpkDamage -----------------------------
\* A context holding a good kernel is offered a damaged one: fields of a DAF file are
\* overwritten or the file is cut short. The load is either refused, leaving every answer
\* as it was, or accepted; in both cases every later query returns (no crash, no hang).
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Fields == {"locator", "nd", "ni", "fward", "next", "prev", "nsum", "start", "end", "target", "center", "frame", "type", "w0", "w1",
           "mid", "radius", "coef", "trail1", "trail2", "trail3", "trail4", "cut"}
Values == {"zero", "minus", "one", "more", "less", "huge", "nan"}
Kinds == {"spk2", "spk3", "spk9", "spk13", "ck", "text"}
CONSTANTS MaxDamage
VARIABLES kind, dmg, answers, outcome, done
vars == <<kind, dmg, answers, outcome, done>>
Init == kind \in Kinds /\ dmg = <<>> /\ answers = "before" /\ outcome = "none" /\ done = FALSE
Damage(f, v) == /\ ~done /\ Len(dmg) < MaxDamage /\ (\A i \in DOMAIN dmg : dmg[i][1] # f)
                /\ dmg' = Append(dmg, <<f, v>>) /\ UNCHANGED <<kind, answers, outcome, done>>
\* the two admissible outcomes
Load == /\ ~done /\ dmg # <<>> /\ done' = TRUE
        /\ \/ outcome' = "refused" /\ UNCHANGED answers
           \/ outcome' = "accepted" /\ answers' = "after"
        /\ UNCHANGED <<kind, dmg>>
Next == (\E f \in Fields, v \in Values : Damage(f, v)) \/ Load
Spec == Init /\ [][Next]_vars
RefusedWhole == outcome = "refused" => answers = "before"
\* one behaviour per damage is replayed: the code picks the outcome
Emit == (done /\ outcome = "refused") => PrintT("SCN " \o ToJson([kind |-> kind, dmg |-> dmg]))
=============================================================================

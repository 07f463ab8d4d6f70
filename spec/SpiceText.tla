----------------------------- MODULE SpiceText -----------------------------
\* Text kernels (frames, body orientation, leap seconds, spacecraft clocks, instruments)
\* loaded into a SpiceContext, and the rotations and time offsets it then answers.
\* A load registers every section of the file or, when any section is malformed, nothing.
\* Later definitions win: by frame id, by frame name, by body, for the leap seconds.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
\* frame definitions: tk = fixed matrix m relative to the frame named rel;
\* pck = body-fixed frame of body b; ck, inertial = known but without a rotation
Tk(id, nm, rel, m) == [id |-> id, nm |-> nm, cls |-> "tk", rel |-> rel, m |-> m, b |-> 0]
Pf(id, nm, b) == [id |-> id, nm |-> nm, cls |-> "pck", rel |-> "", m |-> 0, b |-> b]
Fx(id, nm, cls) == [id |-> id, nm |-> nm, cls |-> cls, rel |-> "", m |-> 0, b |-> 0]
File(fk, pck, lsk, sclk, ik, bad) == [fk |-> fk, pck |-> pck, lsk |-> lsk, sclk |-> sclk, ik |-> ik, bad |-> bad]
\* pck entries: v = 0 only radii, -1 pole without prime meridian, > 0 an orientation
Ori(b, v) == [b |-> b, v |-> v]
Menu == <<
  File(<<Tk(101, "A", "J2000", 1)>>, <<>>, 0, 0, 0, ""),
  File(<<Tk(102, "B", "A", 2)>>, <<>>, 0, 0, 0, ""),
  File(<<Tk(101, "A", "B", 3)>>, <<>>, 0, 0, 0, ""),
  File(<<Tk(101, "A", "C", 1), Tk(103, "C", "J2000", 4)>>, <<>>, 0, 0, 0, ""),
  File(<<Tk(104, "A", "J2000", 5)>>, <<>>, 0, 0, 0, ""),
  File(<<Tk(103, "C", "C", 2)>>, <<>>, 0, 0, 0, ""),
  File(<<Pf(103, "C", 7)>>, <<Ori(7, 1)>>, 0, 0, 0, ""),
  File(<<Pf(101, "A", 7), Tk(102, "B", "A", 2)>>, <<>>, 0, 0, 0, ""),
  File(<<>>, <<Ori(7, 2)>>, 0, 0, 0, ""),
  File(<<>>, <<Ori(7, 0), Ori(8, 1)>>, 0, 0, 0, ""),
  File(<<>>, <<Ori(7, -1)>>, 0, 0, 0, ""),
  File(<<>>, <<>>, 1, 0, 0, ""),
  File(<<Tk(101, "A", "J2000", 2)>>, <<>>, 2, 0, 0, ""),
  File(<<Tk(102, "B", "J2000", 3)>>, <<Ori(7, 3)>>, 3, 1, 1, ""),
  File(<<Fx(102, "B", "ck"), Fx(103, "C", "inertial")>>, <<>>, 0, 2, 1, ""),
  File(<<Tk(103, "C", "A", 4)>>, <<>>, 1, 0, 0, "fk"),
  File(<<Tk(101, "A", "J2000", 3)>>, <<Ori(7, 2)>>, 2, 0, 0, "pck"),
  File(<<Tk(101, "A", "J2000", 4)>>, <<Ori(7, 2)>>, 3, 1, 1, "sclk"),
  File(<<Tk(102, "B", "A", 5)>>, <<Ori(7, 1)>>, 2, 1, 1, "ik"),
  File(<<Tk(102, "B", "J2000", 1)>>, <<>>, 2, 0, 0, "lsk") >>
CONSTANTS MaxLoads, Items
VARIABLES loads, frames, pcks, lsk, sclks, iks, done
vars == <<loads, frames, pcks, lsk, sclks, iks, done>>
Init == /\ loads = <<>> /\ frames = <<>> /\ pcks = <<>> /\ lsk = 0 /\ sclks = <<>> /\ iks = 0 /\ done = FALSE
Load(i) == LET f == Menu[i] IN
    /\ ~done /\ Len(loads) < MaxLoads /\ loads' = Append(loads, i) /\ UNCHANGED done
    /\ IF f.bad # "" THEN UNCHANGED <<frames, pcks, lsk, sclks, iks>>
       ELSE /\ frames' = frames \o f.fk
            /\ pcks' = IF f.pck = <<>> THEN pcks ELSE Append(pcks, f.pck)
            /\ lsk' = IF f.lsk = 0 THEN lsk ELSE f.lsk
            /\ sclks' = IF f.sclk = 0 THEN sclks ELSE Append(sclks, f.sclk)
            /\ iks' = iks + f.ik
Finish == ~done /\ loads # <<>> /\ done' = TRUE /\ UNCHANGED <<loads, frames, pcks, lsk, sclks, iks>>
Next == (\E i \in Items : Load(i)) \/ Finish
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
ById(id) == {i \in DOMAIN frames : frames[i].id = id}
ByName(nm) == {i \in DOMAIN frames : frames[i].nm = nm}
\* latest orientation of a body (position in pcks, value); a file with only radii gives none
Oriented(b) == {k \in DOMAIN pcks : \E j \in DOMAIN pcks[k] : pcks[k][j].b = b /\ pcks[k][j].v > 0}
OriOf(b) == LET k == Max(Oriented(b)) IN (CHOOSE j \in DOMAIN pcks[k] : pcks[k][j].b = b /\ pcks[k][j].v > 0)
Err(e) == [ok |-> FALSE, e |-> e, p |-> <<>>]
\* the path of a frame to J2000: fixed matrices (positive) and at its end at most one orientation (negative)
RECURSIVE Path(_, _)
Path(id, seen) ==
    IF id = 1 THEN [ok |-> TRUE, e |-> "", p |-> <<>>]
    ELSE IF id \in seen THEN Err("cycle")
    ELSE IF ById(id) = {} THEN Err("unknown")
    ELSE LET f == frames[Max(ById(id))] IN
         CASE f.cls = "tk" -> LET rid == IF f.rel = "J2000" THEN 1
                                         ELSE IF ByName(f.rel) = {} THEN 0 ELSE frames[Max(ByName(f.rel))].id
                                  r == IF rid = 0 THEN Err("unknown") ELSE Path(rid, seen \cup {id})
                              IN IF r.ok THEN [ok |-> TRUE, e |-> "", p |-> <<f.m>> \o r.p] ELSE r
           [] f.cls = "pck" -> IF Oriented(f.b) = {} THEN Err("notloaded")
                               ELSE [ok |-> TRUE, e |-> "", p |-> <<-(pcks[Max(Oriented(f.b))][OriOf(f.b)].v)>>]
           [] OTHER -> Err("unsupported")
FrameIds == {1, 101, 102, 103, 104, 999}
PathOf(id) == Path(id, {})
TypeOK == lsk \in 0..3 /\ Len(loads) <= MaxLoads
\* at most one body orientation, at the end of a path; no path longer than the frames known
PathShape == done => \A id \in FrameIds : PathOf(id).ok =>
    /\ \A i \in 1..(Len(PathOf(id).p) - 1) : PathOf(id).p[i] > 0
    /\ Len(PathOf(id).p) <= Len(frames)
\* a rejected file is invisible
Atomic == done => \A i \in DOMAIN loads : Menu[loads[i]].bad # "" =>
    \/ \E j \in DOMAIN loads : j # i /\ Menu[loads[j]].bad = "" 
    \/ (frames = <<>> /\ pcks = <<>> /\ lsk = 0 /\ sclks = <<>> /\ iks = 0)
Emit == done => PrintT("SCN " \o ToJson([files |-> [i \in DOMAIN loads |-> Menu[loads[i]]], loads |-> loads,
     paths |-> {[id |-> id, r |-> PathOf(id)] : id \in FrameIds}, lsk |-> lsk, sclks |-> sclks, iks |-> iks, nfk |-> Cardinality({i \in DOMAIN loads : Menu[loads[i]].bad = "" /\ Menu[loads[i]].fk # <<>>}), npck |-> Len(pcks)]))
=============================================================================

------------------------------- MODULE TraceDrop -------------------------------
(***************************************************************************)
(* Validation of recorded sessions: indexes filled in several ways, points  *)
(* kept by the user, drops.  After each step: the points (of any index)     *)
(* that are still allocated, the number of data elements allocated, and     *)
(* whether the points that the user holds still read as they did.           *)
(* Sessions with large indexes (bulk): the numbers of these.                *)
(* The specification: a point is allocated exactly if its index is open or  *)
(* the user holds it (NothingKept and NotTooEarly of HnswDrop).             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
NT == Len(Traces)

\* pts: <<index, id>> of the points of the open indexes; held: bag (sequence) of those the user holds
VARIABLES tr, i, pts, held, err
vars == <<tr, i, pts, held, err>>

LiveOf(s) == {<<s.live[j][1], s.live[j][2]>> : j \in 1..Len(s.live)}
HeldSet(h) == {h[j] : j \in 1..Len(h)}
RemoveOne(h, x) == LET j == CHOOSE j \in 1..Len(h) : h[j] = x IN SubSeq(h, 1, j - 1) \o SubSeq(h, j + 1, Len(h))

PTS(s) == IF s.op = "fill" THEN {p \in pts : p[1] # s.x} \cup {p \in LiveOf(s) : p[1] = s.x}
          ELSE IF s.op = "drop" THEN {p \in pts : p[1] # s.x}
          ELSE pts
HELD(s) == IF s.op = "hold" THEN Append(held, <<s.x, s.id>>)
           ELSE IF s.op = "release" THEN RemoveOne(held, <<s.x, s.id>>)
           ELSE held

\* sessions with large indexes: numbers only. n: points of the open indexes, held: points held, both: points counted in both
Bulk(t, s) ==
    LET k == s.n + s.held - s.both IN
    IF s.badheld > 0 THEN "a point that the user holds has changed"
    ELSE IF s.livep > k THEN "points are still allocated after the drop of their index (" \o s.op \o ", " \o s.how \o ")"
    ELSE IF s.livep < k THEN "points are freed although they are in use (" \o s.op \o ", " \o s.how \o ")"
    ELSE IF t.counted /\ s.elems # t.dim * k
         THEN "data vectors allocated: another number than the points in use have (" \o s.op \o ", " \o s.how \o ")"
    ELSE ""

\* loads of cut files, the same s.loads times: a point that stays allocated takes much more than 60 bytes (it has a vector of lists)
BadLoad(s) ==
    IF s.oks > 0 THEN ""
    ELSE IF s.grown > 40000 + 60 * s.n * s.loads
         THEN "loads that failed left memory allocated (" \o s.how \o "): " \o ToString(s.grown) \o " bytes"
    ELSE ""

Verdict(t, s) ==
    IF s.op = "badload" THEN BadLoad(s) ELSE
    IF s.op \in {"bulk", "bulkdrop", "bulkrelease"} THEN Bulk(t, s) ELSE
    LET p == PTS(s)
        h == HeldSet(HELD(s))
        l == LiveOf(s)
    IN IF s.badheld > 0 THEN "a point that the user holds has changed"
       ELSE IF ~(l \subseteq p \cup h) THEN "points are still allocated after the drop of their index (" \o s.op \o ")"
       ELSE IF ~(p \cup h \subseteq l) THEN "points are freed although they are in use (" \o s.op \o ")"
       ELSE IF t.counted /\ s.elems # t.dim * Cardinality(p \cup h)
            THEN "data vectors allocated: another number than the points in use have (" \o s.op \o (IF s.op \in {"fill", "drop"} THEN ", " \o s.how ELSE "") \o ")"
       ELSE ""

Init == tr \in 1..NT /\ i = 0 /\ pts = {} /\ held = <<>> /\ err = ""
Next == /\ err = ""
        /\ i < Len(Traces[tr].steps)
        /\ LET s == Traces[tr].steps[i + 1] IN
           /\ err' = Verdict(Traces[tr], s)
           /\ pts' = PTS(s)
           /\ held' = HELD(s)
        /\ i' = i + 1
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
Conforms == err = ""
\* what is printed of a behaviour which does not conform
Shown == [tr |-> tr, i |-> i, err |-> err]
TotalSteps == FoldSeq(LAMBDA t, a : a + Len(t.steps) + 1, 0, Traces)
AllRead == TLCGet("stats").distinct = TotalSteps
==============================================================================

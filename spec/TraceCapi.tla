------------------------------- MODULE TraceCapi -------------------------------
(***************************************************************************)
(* Validation of recorded sessions in which the same calls are made through *)
(* the C functions and through Rust on an index built by the same           *)
(* insertions (or read from the same dump).                                 *)
(***************************************************************************)
EXTENDS HnswCapi, SequencesExt, FiniteSetsExt, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
NT == Len(Traces)

\* hs, dumps: see HnswCapi; the last handle is the one in use
VARIABLES tr, i, hs, dumps, err
vars == <<tr, i, hs, dumps, err>>

Cur == hs[Len(hs)]

Points(c) == {<<c.pts[j][3], c.pts[j][4]>> : j \in 1..Len(c.pts)}
\* every link leads to a point of the index, each point is there once and where it says it is, and the counts agree
ContentOK(c) == /\ LET ids == {c.pts[q][3] : q \in 1..Len(c.pts)} IN
                   \A j \in 1..Len(c.pts) : \A l \in 1..Len(c.pts[j][5]) : \A x \in 1..Len(c.pts[j][5][l]) : c.pts[j][5][l][x][3] \in ids
                /\ \A j \in 1..Len(c.pts) : c.pts[j][1] = c.pts[j][6] /\ c.pts[j][2] = c.pts[j][7] /\ c.pts[j][8] = TRUE
                /\ Cardinality(Points(c)) = Len(c.pts)
                /\ c.nbp = Len(c.pts)

\* an index filled in parallel and the index read from its dump: when distances are equal the lists of the two may be in
\* another order, and the answers differ
Same(s, c, r) == c = r \/ s.what = "filled in parallel, equal distances"

\* (no answer and a senseless count are recorded as an answer with a point that does not exist)
VSrch(s) == IF ~AnswerOK(Cur, s.k, s.c) THEN "an answer through C with points that were not inserted, twice, or more than asked (" \o s.what \o ")"
            ELSE IF ~Same(s, s.c, s.r) THEN "a search through C answers otherwise than through Rust (" \o s.what \o ")"
            ELSE ""

VPSrch(s) == IF Len(s.c) # s.n THEN "a parallel search through C does not answer each request"
             ELSE IF \E j \in 1..s.n : ~AnswerOK(Cur, s.k, s.c[j])
                  THEN "a parallel search through C: points that were not inserted, twice, or more than asked (" \o s.what \o ")"
             ELSE IF \E j \in 1..s.n : ~Same(s, s.c[j], s.r[j])
                  THEN "a parallel search through C answers otherwise than through Rust (" \o s.what \o ")"
             ELSE ""

DumpFiles(b) == {b \o ".hnsw.data", b \o ".hnsw.graph"}

VDump(s) == IF s.refuse THEN (IF s.rc = 1 THEN "a dump that Rust refuses is announced as done" ELSE "")
            ELSE IF s.rc # 1 THEN "the dump through C fails: " \o ToString(s.rc)
            ELSE IF ~(DumpFiles(s.base) \subseteq Range(s.files)) THEN "no dump under the name given through C"
            ELSE IF "err" \in DOMAIN s.c THEN "the dump made through C is not loaded: " \o s.c.err
            ELSE IF ~("pts" \in DOMAIN s.c) THEN "the dump made through C is loaded as nothing"
            ELSE IF Points(s.c) # Cur.pts THEN "the dump made through C has not the points and data that were inserted"
            ELSE IF ~ContentOK(s.c) THEN "the dump made through C is not coherent"
            ELSE IF s.same /\ s.c # s.r THEN "the dump made through C is not that of the same index in Rust"
            ELSE ""

VDescr(s) == IF s.d.null THEN "no description through C"
             ELSE IF s.d.mode # 1 THEN "description through C: mode"
             ELSE IF s.d.nbl # 16 THEN "description through C: layers"
             ELSE IF s.d.M # s.M \/ s.d.efc # s.efc THEN "description through C: parameters"
             ELSE IF s.d.nbp # s.nbp \/ s.nbp # Cardinality(Cur.pts) THEN "description through C: number of points"
             ELSE IF s.d.dim # s.dim THEN "description through C: dimension"
             ELSE IF s.d.dist # s.dist \/ s.d.tname # s.tname THEN "description through C: names"
             ELSE ""

Verdict(s) == CASE s.op = "badname" -> (IF s.null THEN "" ELSE "an unknown distance name gives an index through C")
                [] s.op = "fail" -> s.msg
                [] s.op = "ins" -> ""
                [] s.op = "srch" -> VSrch(s)
                [] s.op = "psrch" -> VPSrch(s)
                [] s.op = "dump" -> VDump(s)
                [] s.op = "rdump" -> ""
                [] s.op = "descr" -> VDescr(s)
                [] s.op = "nodescr" -> (IF s.d.null THEN "" ELSE "a description of no file through C")
                [] s.op = "cload" -> (IF s.ok THEN "" ELSE "a dump is not loaded through C (" \o s.what \o ")")
                [] s.op = "noload" -> (IF s.null THEN "" ELSE "an index loaded from no files through C")

Init == tr \in 1..NT /\ i = 0 /\ hs = <<InitHandle>> /\ dumps = [b \in {} |-> {}] /\ err = ""

Next == /\ err = ""
        /\ i < Len(Traces[tr].steps)
        /\ LET s == Traces[tr].steps[i + 1] IN
           /\ err' = Verdict(s)
           /\ hs' = IF s.op = "ins" THEN [hs EXCEPT ![Len(hs)] = Inserted(@, {s.pts[j] : j \in 1..Len(s.pts)})]
                    ELSE IF s.op = "cload" /\ s.what = "index" /\ s.ok THEN Append(hs, FromDump(dumps, s.base))
                    ELSE hs
           /\ dumps' = IF (s.op = "dump" /\ s.rc = 1) \/ s.op = "rdump" THEN Dumped(dumps, s.base, Cur) ELSE dumps
        /\ i' = i + 1
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
Conforms == err = ""
\* what is printed of a behaviour which does not conform
Shown == [tr |-> tr, i |-> i, err |-> err]
TotalSteps == FoldSeq(LAMBDA t, a : a + Len(t.steps) + 1, 0, Traces)
AllRead == TLCGet("stats").distinct = TotalSteps
==============================================================================

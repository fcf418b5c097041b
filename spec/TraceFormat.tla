------------------------------ MODULE TraceFormat ------------------------------
(* Validation of recorded dumps and loads against the format: dumps of the code are byte for byte what HnswFormat says for version 4;
   files written for versions 2, 3, 4 (checked to be what HnswFormat says) load as the index they were written for, and dumped again
   give the files of version 4 of that index; files with a changed mark are not loaded. *)
EXTENDS HnswFormat, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
NT == Len(Traces)

VARIABLES tr, i, err
vars == <<tr, i, err>>

\* 1/ln(M), the scale of versions before 4, for the values of M that the recorder uses (bytes of the double)
DefaultScale(m) == CASE m = 1 -> <<0, 0, 0, 0, 0, 0, 240, 127>>
                     [] m = 2 -> <<254, 130, 43, 101, 71, 21, 247, 63>>
                     [] m = 3 -> <<82, 193, 188, 3, 174, 32, 237, 63>>
                     [] m = 8 -> <<254, 3, 58, 220, 9, 199, 222, 63>>
                     [] m = 16 -> <<254, 130, 43, 101, 71, 21, 215, 63>>
                     [] m = 255 -> <<105, 160, 167, 229, 115, 25, 199, 63>>

ScaleOf(ix, v) == IF v >= 4 THEN ix.scale ELSE DefaultScale(ix.M)

EpOK(ix) == /\ ix.ep.l < Len(ix.layers)
            /\ ix.ep.r < Len(ix.layers[ix.ep.l + 1])
            /\ ix.layers[ix.ep.l + 1][ix.ep.r + 1].id = ix.ep.id
            /\ \A l \in (ix.ep.l + 2)..Len(ix.layers) : ix.layers[l] = <<>>

VDump(s) == IF s.graph # GraphBytes(s.ix, 4) THEN "the graph file written is not in the format"
            ELSE IF s.data # DataBytes(s.ix, 4) THEN "the data file written is not in the format"
            ELSE IF ~EpOK(s.ix) THEN "the entry point written is not a point of the highest level"
            ELSE ""

\* what the recorder wrote is what the specification says
Written(s) == s.graph = GraphBytes(s.ix, s.ver) /\ s.data = DataBytes(s.ix, s.ver)

Layers(ix, data) == [l \in 1..Len(ix.layers) |-> [r \in 1..Len(ix.layers[l]) |->
                       LET p == ix.layers[l][r] IN [id |-> p.id, nb |-> p.nb, data |-> IF data THEN p.data ELSE <<>>]]]

DescrOK(s) == LET d == s.descr IN
    /\ d.ver = s.ver /\ d.mode = 1 /\ d.M = s.ix.M /\ d.nbl = NL /\ d.efc = s.ix.efc /\ d.nbp = s.ix.nbp /\ d.dim = s.ix.dim
    /\ d.dist = s.ix.dist /\ d.tname = s.ix.tname
    /\ s.ver >= 4 => d.scale = s.ix.scale

VLoad(s) ==
    IF ~Written(s) THEN "HARNESS: the files are not those of the specification"
    ELSE IF ~DescrOK(s) THEN "the description read is not the one written"
    ELSE IF s.res.out # 1 THEN "a dump of a supported version is not loaded: " \o ToString(s.ver) \o " " \o s.res.msg
    ELSE LET x == s.res.ix IN
         IF Layers(x, TRUE) # Layers(s.ix, TRUE) THEN "version " \o ToString(s.ver) \o ": other points, data or links are loaded"
         ELSE IF x.M # s.ix.M \/ x.efc # s.ix.efc \/ x.dim # s.ix.dim \/ x.dist # s.ix.dist \/ x.nbp # s.ix.nbp \/ x.count # s.ix.nbp
                 \/ x.scale # ScaleOf(s.ix, s.ver) \/ x.maxl # NL \/ x.mlo # s.ix.ep.l
              THEN "version " \o ToString(s.ver) \o ": other parameters or counts are loaded"
         ELSE IF s.res.again # << GraphBytes([s.ix EXCEPT !.scale = ScaleOf(s.ix, s.ver)], 4), DataBytes(s.ix, 4) >>
              THEN "version " \o ToString(s.ver) \o ": dumped again, the loaded index gives other files"
         ELSE IF s.nod.out # 1 THEN "graph only: a dump of a supported version is not loaded " \o s.nod.msg
         ELSE IF Layers(s.nod.ix, TRUE) # Layers(s.ix, FALSE) \/ s.nod.ix.count # s.ix.nbp \/ s.nod.ix.mlo # s.ix.ep.l \/ s.nod.ix.M # s.ix.M
              THEN "graph only: another graph is loaded"
         ELSE ""

VMarks(s) ==
    LET gm == GraphMarks(s.ix, s.ver)
        dm == DataMarks(s.ix, s.ver)
        one(m) == IF ~(m[2] \in (IF m[1] = "g" THEN gm ELSE dm)) THEN "HARNESS: not a mark"
                  ELSE IF m[6] = 1 \/ m[7] = 1 THEN "a file with a bad mark is loaded"
                  ELSE IF m[8] = 1 /\ (m[1] = "d" \/ m[2] = 0) THEN "a data file with a bad mark is read"
                  ELSE ""
    IN LET bad == {j \in 1..Len(s.marks) : one(s.marks[j]) # ""} IN
       IF bad # {} THEN one(s.marks[CHOOSE j \in bad : TRUE]) ELSE ""

Verdict(s) == CASE s.op = "dump" -> VDump(s) [] s.op = "load" -> VLoad(s) [] s.op = "marks" -> VMarks(s) [] s.op = "fail" -> "the dump fails: " \o s.msg

Init == tr \in 1..NT /\ i = 0 /\ err = ""
Next == /\ err = ""
        /\ i < Len(Traces[tr].steps)
        /\ err' = Verdict(Traces[tr].steps[i + 1])
        /\ i' = i + 1
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
Conforms == err = ""
\* what is printed of a behaviour which does not conform
Shown == [tr |-> tr, i |-> i, err |-> err]
TotalSteps == FoldSeq(LAMBDA t, a : a + Len(t.steps) + 1, 0, Traces)
AllRead == TLCGet("stats").distinct = TotalSteps
==============================================================================

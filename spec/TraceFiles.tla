------------------------------ MODULE TraceFiles ------------------------------
(***************************************************************************)
(* Validation of recorded histories of builds, insertions, dumps, reloads   *)
(* (in memory, mapped, graph only, with other types), reads of the data     *)
(* file, neighbourhood extractions, searches and drops, against HnswFiles.  *)
(* After each step the content of every live index and the list of files    *)
(* with their contents are observed.                                        *)
(***************************************************************************)
EXTENDS HnswFiles, SequencesExt, FiniteSetsExt, TLC, Json, IOUtils

CONSTANT PROP

Traces == ndJsonDeserialize(IOEnv.TRACE)
NT == Len(Traces)

\* obs: answers seen, set of <<points, max level, answers>>
VARIABLES tr, i, idx, dumps, files, obs, err
vars == <<tr, i, idx, dumps, files, obs, err>>

FileNames(f, d) == {f[d][j][1] : j \in 1..Len(f[d])}
FileOf(f, d, n) == CHOOSE x \in Range(f[d]) : x[1] = n
DataName(b) == b \o ".hnsw.data"
GraphName(b) == b \o ".hnsw.graph"
\* is the name b of directory d taken
IsTaken(f, d, b) == DataName(b) \in FileNames(f, d)

Changed(s) == {s.chg[j][1] : j \in 1..Len(s.chg)}
NewContent(s, k) == LET j == CHOOSE j \in 1..Len(s.chg) : s.chg[j][1] = k IN s.chg[j][2]

\* the graph part of a content
Pt(x) == <<x[1], x[2], x[3], x[5], x[6], x[7]>>
GraphPart(c) == [j \in 1..Len(c.pts) |-> Pt(c.pts[j])]

\* what the content must satisfy by itself: each point where it says it is, found again by its position, counts that agree
SelfOK(c) == /\ \A j \in 1..Len(c.pts) : c.pts[j][1] = c.pts[j][6] /\ c.pts[j][2] = c.pts[j][7] /\ c.pts[j][8] = TRUE
             /\ c.nbp = Len(c.pts)
             /\ c.cnt = [l \in 1..Len(c.cnt) |-> Cardinality({j \in 1..Len(c.pts) : c.pts[j][1] = l - 1})]

\* all neighbours of a point over its layers, as a sequence in the order of the layers
AllNb(lists) == FoldLeft(LAMBDA a, l : a \o l, <<>>, lists)
CountOf(seq, x) == Cardinality({j \in 1..Len(seq) : seq[j] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in Range(a) \cup Range(b) : CountOf(a, x) = CountOf(b, x)
ByDist(a) == \A j \in 1..(Len(a) - 1) : a[j][4] <= a[j + 1][4]

FlatOK(f, c) ==
    /\ {f.entries[j][1] : j \in 1..Len(f.entries)} = {c.pts[j][3] : j \in 1..Len(c.pts)}
    /\ \A j \in 1..Len(f.entries) :
          LET e == f.entries[j]
              p == CHOOSE q \in Range(c.pts) : q[3] = e[1]
          IN e[2] = "sorted" /\ ByDist(e[3]) /\ SameBag(e[3], AllNb(p[5]))
    /\ f.absent > 0

IDX(s) == IF s.op = "build" THEN Append(idx, NewIndex(NewContent(s, Len(idx) + 1), s.ep))
          ELSE IF s.op = "load" /\ s.ok
               THEN LET x == Loaded(dumps, <<s.dir, s.base>>, s.form # 1, s.form >= 2)
                    IN Append(idx, [x EXCEPT !.c = IF Len(idx) + 1 \in Changed(s) THEN NewContent(s, Len(idx) + 1) ELSE @])
          ELSE IF s.op = "drop" THEN Remove(idx, s.k)
          ELSE IF s.op = "ins" THEN [idx EXCEPT ![s.k].c = IF s.k \in Changed(s) THEN NewContent(s, s.k) ELSE @, ![s.k].ep = s.ep]
          ELSE IF s.op = "dump" /\ s.ok THEN [idx EXCEPT ![s.k].ep = s.ep]
          ELSE idx

DUMPS(s) == IF s.op = "setep" THEN [dumps EXCEPT ![<<s.dir, s.base>>].ep = s.ep, ![<<s.dir, s.base>>].c.par.dim = s.dim]
            ELSE IF s.op = "rmgraph" THEN [y \in DOMAIN dumps \ {<<s.dir, s.base>>} |-> dumps[y]]
            ELSE IF s.op = "burst" THEN FoldLeft(LAMBDA a, e : AfterDump(a, idx[e[1]], <<s.dir, e[2]>>, e[3]), dumps, s.ds)
            ELSE IF s.op # "dump" THEN dumps
            ELSE IF s.ok THEN AfterDump(dumps, idx[s.k], <<s.dir, s.ret>>, s.ep)
            ELSE [y \in DOMAIN dumps \ {<<s.dir, s.base>>} |-> dumps[y]]

\* contents of other indexes than the one the step is about
Bystanders(s) == Changed(s) \ (IF s.op \in {"build", "load"} THEN {Len(idx) + 1} ELSE IF s.op = "ins" THEN {s.k} ELSE {})

DumpRefusable(c) == c.nbp = 0 \/ c.par.maxl # 16

Stable(s) == s.op \in {"dump", "burst", "crowd", "setep", "rmgraph"} \/ s.files = files

VDump(t, s) ==
    LET x == idx[s.k] IN
    IF ~s.ok THEN (IF DumpRefusable(x.c) THEN "" ELSE "the dump fails: " \o s.ret)
    ELSE LET tk == {<<d, b>> \in {<<s.dir, s.base>>, <<s.dir, s.ret>>} : IsTaken(files, d, b)} IN
         IF ~DumpNameOK(x, <<s.dir, s.base>>, <<s.dir, s.ret>>, tk) THEN "the dump is not written under the name it should have"
         ELSE IF ~({DataName(s.ret), GraphName(s.ret)} \subseteq FileNames(s.files, s.dir)) THEN "no files under the returned name"
         ELSE IF \E d \in 1..2 : \E n \in FileNames(files, d) :
                    /\ ~(d = s.dir /\ n \in {DataName(s.ret), GraphName(s.ret)})
                    /\ ~(n \in FileNames(s.files, d) /\ FileOf(s.files, d, n) = FileOf(files, d, n))
              THEN "the dump changes another file"
         ELSE IF x.prot /\ IsTaken(files, s.dir, s.base) /\ {DataName(s.ret), GraphName(s.ret)} \cap FileNames(files, s.dir) # {}
              THEN "the dump of a reloaded index overwrites a file"
         ELSE IF \E d \in 1..2 : FileNames(s.files, d) \ (FileNames(files, d) \cup (IF d = s.dir THEN {DataName(s.ret), GraphName(s.ret)} ELSE {})) # {}
              THEN "the dump creates another file"
         ELSE ""

\* several dumps of reloaded indexes under a name which is taken, one after the other: as if they were far apart
VBurst(t, s) ==
    LET rets == {s.ds[j][2] : j \in 1..Len(s.ds)}
        new == UNION {{DataName(b), GraphName(b)} : b \in rets} IN
    IF \E j \in 1..Len(s.ds) : LET tk == {<<s.dir, b>> : b \in {b \in {s.base, s.ds[j][2]} : IsTaken(files, s.dir, b)}
                                                          \cup {s.ds[m][2] : m \in 1..(j - 1)}}
                                IN ~DumpNameOK(idx[s.ds[j][1]], <<s.dir, s.base>>, <<s.dir, s.ds[j][2]>>, tk)
         THEN "one of the dumps in a row is not written under the name it should have"
    ELSE IF ~(new \subseteq FileNames(s.files, s.dir)) THEN "no files under one of the returned names"
    ELSE IF \E d \in 1..2 : \E n \in FileNames(files, d) : ~(n \in FileNames(s.files, d) /\ FileOf(s.files, d, n) = FileOf(files, d, n))
         THEN "one of the dumps in a row changes another file"
    ELSE IF \E d \in 1..2 : FileNames(s.files, d) \ (FileNames(files, d) \cup (IF d = s.dir THEN new ELSE {})) # {}
         THEN "one of the dumps in a row creates another file"
    ELSE ""

\* the entry point written is the one the index is known to have
VEntry(s) == IF s.op = "dump" /\ s.ok /\ idx[s.k].ep # "" /\ idx[s.k].ep # s.ep THEN "another entry point than in the dump it was loaded from" ELSE ""

VDescr(t, s) ==
    LET x == idx[s.k] IN
    IF s.op # "dump" \/ ~s.ok THEN ""
    ELSE IF s.descr # [ver |-> 4, mode |-> 1, M |-> x.c.par.M, scale |-> x.c.par.scale, nbl |-> x.c.par.maxl, efc |-> x.c.par.efc,
                       nbp |-> x.c.nbp, dim |-> x.c.par.dim, dist |-> t.dname, tname |-> t.tname, tname2 |-> t.tname, dim2 |-> x.c.par.dim]
         THEN "the description of the dump is not that of the index" ELSE ""

VLoad(s, c2) ==
    IF ~s.ok THEN "the dump is not loaded: " \o s.msg
    ELSE LET c == dumps[<<s.dir, s.base>>].c IN
         IF c2.pts # c.pts THEN "the reloaded index has other points, data or links"
         ELSE IF c2.par # c.par THEN "the reloaded index has other parameters"
         ELSE IF c2 # c THEN "the reloaded index has other counts or another entry level"
         ELSE IF dumps[<<s.dir, s.base>>].ep # s.ep /\ c2.nbp > 0 THEN "the reloaded index has another entry point"
         ELSE IF ~SelfOK(c2) THEN "the reloaded index is not coherent"
         ELSE ""

VNoData(s) ==
    IF ~s.ok THEN "the graph is not loaded: " \o s.msg
    ELSE LET c == dumps[<<s.dir, s.base>>].c IN
         IF GraphPart(s.c) # GraphPart(c) \/ s.c.cnt # c.cnt \/ s.c.nbp # c.nbp \/ s.c.mlo # c.mlo THEN "the graph reloaded without data is another one"
         ELSE IF s.c.par.M # c.par.M \/ s.c.par.efc # c.par.efc \/ s.c.par.scale # c.par.scale THEN "graph reloaded without data: other parameters"
         ELSE IF ~FlatOK(s.flat, c) THEN "the neighbourhoods extracted from the graph reloaded without data are other ones"
         ELSE IF ~s.re.ok THEN "the graph reloaded without data, dumped again, is not reloaded: " \o s.re.msg
         ELSE IF s.re.c # s.c \/ ~FlatOK(s.re.flat, c) THEN "the graph reloaded without data, dumped and reloaded again, is another one"
         ELSE ""

VMap(t, s) ==
    IF ~s.ok THEN "the data file is not mapped: " \o s.msg
    ELSE LET c == dumps[<<s.dir, s.base>>].c IN
         IF s.ids # [j \in 1..Len(c.pts) |-> c.pts[j][3]] THEN "the mapped file lists other ids, or in another order"
         ELSE IF s.data # [j \in 1..Len(c.pts) |-> c.pts[j][4]] THEN "the mapped file gives other data"
         ELSE IF s.nb # Len(c.pts) \/ s.tname # t.tname \/ s.dname # t.dname \/ s.chk # <<TRUE>> THEN "number of data or names of the mapped file"
         ELSE IF \E j \in 1..Len(s.absent) : s.absent[j][2] # TRUE THEN "the mapped file gives data for an id that is not in it"
         ELSE ""

VOther(t, s) ==
    IF s.op = "other" /\ s.out # (IF s.tname = t.tname /\ s.dname = t.dname THEN 1 ELSE 0)
    THEN (IF s.out = 0 THEN "refused with the right type and distance " ELSE "not refused with another type or distance ") \o s.msg
    ELSE IF s.op = "nodata" /\ \E j \in 1..Len(s.re.outs) : s.re.outs[j][3] # 0 THEN "the dump of a graph without data is loaded with a type"
    ELSE IF s.op = "map" /\ s.ok /\ \E j \in 1..Len(s.chks) : s.chks[j][2] # (s.chks[j][1] = t.tname) THEN "the check of a data type accepts another type, or refuses the right one"
    ELSE IF s.op = "othermap" /\ s.out # (IF s.tname = t.tname THEN 1 ELSE 0) THEN "mapping with this type: " \o s.msg
    ELSE ""

VSrch(t, s) ==
    IF s.op # "srch" \/ t.ties THEN ""
    ELSE IF \E o \in obs : o[1] = idx[s.k].c.pts /\ o[2] = <<idx[s.k].c.mlo, idx[s.k].ep>> /\ o[3] # s.ans THEN "the same index gives other answers"
    ELSE ""

NewOf(s) == IF Len(idx) + 1 \in Changed(s) THEN NewContent(s, Len(idx) + 1) ELSE [pts |-> <<>>]

First(a, b) == IF a # "" THEN a ELSE b

Verdict(t, s) ==
    IF s.op = "panic" THEN "panic: " \o s.msg
    ELSE IF Bystanders(s) # {} THEN "an index changed by itself"
    ELSE IF ~Stable(s) THEN "files changed without a dump"
    ELSE CASE PROP = "P12" -> First(IF s.op = "load" THEN VLoad(s, NewOf(s)) ELSE "",
                                First(VEntry(s), First(VSrch(t, s), IF s.op = "dump" THEN VDump(t, s) ELSE IF s.op = "burst" THEN VBurst(t, s) ELSE "")))
           [] PROP = "P14" -> IF s.op = "load" /\ s.form >= 2 THEN VLoad(s, NewOf(s))
                              ELSE IF s.op = "map" THEN VMap(t, s) ELSE VSrch(t, s)
           [] PROP = "P15" -> IF s.op = "dump" THEN VDump(t, s) ELSE IF s.op = "burst" THEN VBurst(t, s)
                              ELSE IF s.op = "load" THEN VLoad(s, NewOf(s)) ELSE ""
           [] PROP = "P16" -> IF s.op = "flat" THEN (IF FlatOK(s.flat, idx[s.k].c) THEN "" ELSE "the extracted neighbourhoods are not those of the index")
                              ELSE IF s.op = "nodata" THEN VNoData(s) ELSE ""
           [] PROP = "P17" -> IF s.op \in {"load", "nodata", "map"} /\ (IF s.op = "nodata" /\ s.ok THEN ~s.re.ok ELSE ~s.ok) THEN "refused with the right type and distance: " \o (IF s.ok THEN s.re.msg ELSE s.msg) ELSE VOther(t, s)
           [] PROP = "P20" -> VDescr(t, s)

Init == /\ tr \in 1..NT
        /\ i = 0
        /\ idx = <<>> /\ dumps = <<>> /\ obs = {} /\ err = ""
        /\ files = << <<>>, <<>> >>

Next == /\ err = ""
        /\ i < Len(Traces[tr].steps)
        /\ LET t == Traces[tr]
               s == t.steps[i + 1]
           IN /\ err' = Verdict(t, s)
              /\ IF s.op = "panic" THEN UNCHANGED <<idx, dumps, files, obs>>
                 ELSE /\ idx' = IDX(s)
                      /\ dumps' = DUMPS(s)
                      /\ files' = s.files
                      /\ obs' = IF s.op = "srch" /\ ~t.ties THEN obs \cup {<<idx[s.k].c.pts, <<idx[s.k].c.mlo, idx[s.k].ep>>, s.ans>>} ELSE obs
        /\ i' = i + 1
        /\ UNCHANGED tr

Spec == Init /\ [][Next]_vars
Conforms == err = ""
\* what is printed of a behaviour which does not conform
Shown == [tr |-> tr, i |-> i, err |-> err]
TotalSteps == FoldLeft(LAMBDA a, t : a + Len(t.steps) + 1, 0, Traces)
AllRead == TLCGet("stats").distinct = TotalSteps
==============================================================================

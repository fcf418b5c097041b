----------------------------- MODULE TraceConc -----------------------------
(***************************************************************************)
(* Validation of recorded concurrent executions.  The state of the index is *)
(* recorded each time a thread releases an exclusive lock (all threads are  *)
(* then stopped), the beginning and the end of each operation with its      *)
(* answer are recorded as well.  As in TraceSeq the observed state is taken *)
(* over and each step must be in the relation PROP states; these are the    *)
(* action properties and invariants of HnswConc, so that whatever the       *)
(* granularity of the locking of the code they apply.                       *)
(***************************************************************************)
EXTENDS HnswGraph, TLC, Json, IOUtils

CONSTANT PROP

Traces == ndJsonDeserialize(IOEnv.TRACE)
NT == Len(Traces)

\* done: insertions that are over; open: the dumps being taken (or reads being made), by thread
VARIABLES tr, i, g, tab, begun, had, mlo, done, open, err
vars == <<tr, i, g, tab, begun, had, mlo, done, open, err>>

T == Traces[tr]

Pairs(layers) == [l \in 1..Len(layers) |-> [j \in 1..Len(layers[l]) |-> <<layers[l][j][1], layers[l][j][2]>>]]
SameKey(layers) == \A l \in 1..Len(layers) : \A j \in 1..Len(layers[l]) : layers[l][j][1] = layers[l][j][3]

IsObs(s) == s.op \in {"init", "obs", "final"} /\ ~s.same
AddKeys(s) == {s.add[j][1] : j \in 1..Len(s.add)}
AddOf(s, k) == s.add[CHOOSE j \in 1..Len(s.add) : s.add[j][1] = k]
ChgKeys(s) == {s.chg[j][1] : j \in 1..Len(s.chg)}
ChgOf(s, k) == s.chg[CHOOSE j \in 1..Len(s.chg) : s.chg[j][1] = k][2]

TabAfter(tb, s) == [k \in DOMAIN tb \cup AddKeys(s) |-> IF k \in AddKeys(s) THEN AddOf(s, k) ELSE tb[k]]
GraphAfter(gr, tb2, s) ==
    LET ks == DOMAIN tb2 \cup ChgKeys(s) IN
    [lev |-> [k \in ks |-> IF k \in DOMAIN tb2 THEN tb2[k][2] ELSE 0],
     nb  |-> [k \in ks |-> IF k \in ChgKeys(s) THEN Pairs(ChgOf(s, k)) ELSE IF k \in Keys(gr) THEN gr.nb[k] ELSE <<>>],
     ep  |-> 0]

\* the lists of a point as sets
ListSets(lists) == [l \in 1..Len(lists) |-> Range(lists[l])]

\* a link disappears only from a full list of nearer points
Displaced(g1, g2, d, p) ==
    \A k \in Keys(g1) : \A l \in 0..(Len(g1.nb[k]) - 1) :
        LET before == ListKeys(NB(g1, k, l))
            after == ListKeys(NB(g2, k, l))
        IN \A x \in before \ after : Len(NB(g2, k, l)) >= Cap(p, l) /\ \A y \in after : d[k][y] <= d[k][x]

CountIn(tb, l) == Cardinality({k \in DOMAIN tb : tb[k][2] = l})

\* the points stored and their positions at the end
Complete(t, tb, s) ==
    /\ DOMAIN tb = 1..t.n
    /\ s.nbp = t.n
    /\ s.cnt = [l \in 1..t.par.maxl |-> CountIn(tb, l - 1)]
    /\ \A k \in DOMAIN tb : /\ tb[k][4] = t.ids[k]
                            /\ tb[k][5] = t.rows[k]
                            /\ <<tb[k][6], tb[k][7]>> = <<tb[k][2], tb[k][3]>>
    /\ \A l \in 0..(t.par.maxl - 1) : {tb[k][3] : k \in {x \in DOMAIN tb : tb[x][2] = l}} = 0..(CountIn(tb, l) - 1)

P08(t, s, g1, g2, tb, tb2) ==
    IF s.op = "fail" THEN s.kind \o ": " \o s.msg
    ELSE IF ~IsObs(s) THEN ""
    ELSE IF Len(s.del) > 0 THEN "a stored point moved, changed or disappeared"
    ELSE IF Cardinality(AddKeys(s)) # Len(s.add) \/ AddKeys(s) \cap DOMAIN tb # {} THEN "a point has two positions"
    ELSE IF AddKeys(s) \ (1..t.n) # {} THEN "an unknown point is stored"
    ELSE IF ~Displaced(g1, g2, t.D, t.par) THEN "a link was lost, not displaced by a nearer point"
    ELSE IF s.op # "final" THEN ""
    ELSE IF ~Complete(t, tb2, s) THEN "the points stored are not the points inserted"
    ELSE IF \E j \in 1..Len(s.chg) : ~SameKey(s.chg[j][2]) THEN "a neighbour has not the external id of the point at its position"
    ELSE IF ~WellFormed(g2, t.D, t.par) THEN "a neighbour list is not well formed"
    ELSE ""

P09(t, s, g2) ==
    IF s.op = "fail" THEN s.kind \o ": " \o s.msg
    ELSE IF ~IsObs(s) THEN ""
    ELSE IF had /\ ~s.ep THEN "the entry point disappeared"
    ELSE IF s.mlo < mlo THEN "the level of the entry point decreased"
    ELSE IF s.mlo > MaxLevel(g2) THEN "the entry point is at a level where there is no point"
    ELSE IF s.op # "final" THEN ""
    ELSE IF Keys(g2) # {} /\ ~s.ep THEN "no entry point"
    ELSE IF s.mlo # MaxLevel(g2) THEN "the entry point is not at the highest level"
    ELSE IF Cardinality(Orphans(g2)) > 1 THEN "two points without neighbour in their own layer"
    ELSE ""

P10(s) == IF s.op = "fail" THEN s.kind \o ": " \o s.msg ELSE ""

Sound(a, s, d, pts) ==
    /\ Len(a) <= s.k
    /\ \A j \in 1..Len(a) : a[j][1] = a[j][3] /\ a[j][1] \in pts /\ a[j][2] = d[s.q][a[j][1]]
    /\ \A j, m \in 1..Len(a) : j < m => a[j][2] <= a[m][2] /\ a[j][1] # a[m][1]

P11(t, s, bg) ==
    IF s.op = "fail" THEN s.kind \o ": " \o s.msg
    ELSE IF s.op # "end" THEN ""
    ELSE IF s.what = "iter"
         THEN IF Cardinality(Range(s.it)) # Len(s.it) \/ ~(Range(s.it) \subseteq bg) THEN "iteration gives unknown points" ELSE ""
    ELSE IF s.what # "srch" THEN ""
    ELSE IF ~Sound(s.ans, s, t.D, bg) THEN "unsound answer"
    ELSE IF s.fon /\ \E j \in 1..Len(s.ans) : s.ans[j][1] \notin Range(s.acc) THEN "a rejected point in the answer"
    ELSE IF s.hadep /\ ~s.fon /\ s.k >= 1 /\ s.ef >= 1 /\ Len(s.ans) = 0 THEN "empty answer"
    ELSE ""

----------------------------------------------------------------------------
(* Dumps taken while other threads insert.  For each dump being taken: the  *)
(* points stored and those whose insertion was over when it began, and all  *)
(* the lists each point had since.                                          *)

Opened(tb, gr) == [tab0 |-> DOMAIN tb, done0 |-> done,
                   lists |-> [k \in Keys(gr) |-> {ListSets(gr.nb[k])}]]
Extended(o, gr) == [o EXCEPT !.lists = [k \in Keys(gr) |-> {ListSets(gr.nb[k])} \cup (IF k \in DOMAIN o.lists THEN o.lists[k] ELSE {})]]

P22(t, s, gr, tb) ==
    IF s.op = "fail" THEN s.kind \o ": " \o s.msg
    ELSE IF s.op # "end" THEN ""
    ELSE IF s.what # "dump" THEN ""
    ELSE LET o == open[s.tid] IN
         IF ~s.ok THEN (IF o.done0 = {} THEN "" ELSE "the dump fails: " \o s.msg)
         ELSE IF s.lmsg # "" THEN "the dump is not loaded: " \o s.lmsg
         ELSE LET d == s.d
                  ks == {d.add[j][1] : j \in 1..Len(d.add)}
                  of(k) == d.add[CHOOSE j \in 1..Len(d.add) : d.add[j][1] = k]
                  lists(k) == IF k \in ChgKeys(d) THEN ListSets(Pairs(ChgOf(d, k))) ELSE <<>>
              IN IF Cardinality(ks) # Len(d.add) \/ ~(ks \subseteq DOMAIN tb) THEN "the dump has unknown points, or a point twice"
                 ELSE IF ~(o.tab0 \subseteq ks) THEN "a point stored before the dump began is not in the dump"
                 ELSE IF \E k \in ks : of(k) # tb[k] THEN "a point of the dump has another position, id or data"
                 ELSE IF d.nbp # Cardinality(ks) \/ d.nbd # Cardinality(ks) THEN "number of points of the dump"
                 ELSE IF \E j \in 1..Len(d.chg) : ~SameKey(d.chg[j][2]) THEN "a neighbour in the dump has not the external id of the point at its position"
                 ELSE IF \E k \in ks : lists(k) \notin o.lists[k] THEN "a point of the dump has links it never had"
                 ELSE IF d.e[1] \notin ks \/ <<tb[d.e[1]][2], tb[d.e[1]][3]>> # <<d.e[2], d.e[3]>> \/ d.mlo # d.e[2] THEN "the entry point of the dump"
                 ELSE IF \E k \in o.done0 : tb[k][2] > d.e[2] THEN "the entry point of the dump is under a point inserted before"
                 ELSE IF Range(d.map) # {<<k, tb[k][5]>> : k \in ks} \/ Len(d.map) # Cardinality(ks) THEN "the data file of the dump"
                 ELSE ""

----------------------------------------------------------------------------
(* Reads while other threads insert: iterations, counts, lookups,           *)
(* extractions of neighbourhoods.  open: as for dumps.                      *)
ReadKinds == {"iter", "cnt", "look", "flat"}
AtPos(tb, l, r) == {k \in DOMAIN tb : tb[k][2] = l /\ tb[k][3] = r}
InLayer(tb, ks, l) == {k \in ks : tb[k][2] = l}
InOrder(it, layer) == \A j \in 1..(Len(it) - 1) : it[j][2] < it[j + 1][2] \/ (it[j][2] = it[j + 1][2] /\ it[j][3] < it[j + 1][3])

ReadIter(s, o, tb) ==
    LET ks == {s.pts[j][1] : j \in 1..Len(s.pts)}
        old == IF s.layer < 0 THEN o.tab0 ELSE InLayer(tb, o.tab0, s.layer)
    IN IF Cardinality(ks) # Len(s.pts) \/ ~(ks \subseteq DOMAIN tb) THEN "an iteration gives an unknown point, or a point twice"
       ELSE IF ~(old \subseteq ks) THEN "an iteration leaves out a point stored when it began"
       ELSE IF s.layer >= 0 /\ \E k \in ks : tb[k][2] # s.layer THEN "an iteration over a layer gives a point of another layer"
       ELSE IF \E j \in 1..Len(s.pts) : LET e == tb[s.pts[j][1]] IN Tail(s.pts[j]) # <<e[2], e[3], e[4], e[5]>>
            THEN "an iteration gives a point with another position, id or data"
       ELSE IF \E j \in 1..Len(s.pts) : ListSets(Pairs(s.nb[j])) \notin o.lists[s.pts[j][1]] THEN "a point gives neighbours it never had together"
       ELSE IF \E j \in 1..Len(s.nb) : \E l \in 1..Len(s.nb[j]) : \E m \in 1..(Len(s.nb[j][l]) - 1) : s.nb[j][l][m][2] > s.nb[j][l][m + 1][2]
            THEN "a point gives neighbours out of order"
       ELSE IF ~InOrder(s.pts, s.layer) THEN "an iteration is not in the order of layers and ranks"
       ELSE ""

\* (the entry point is set when an insertion ends)
ReadCnt(s, o, tb, bg) ==
    LET lo == CASE s.of = "nbp" -> Cardinality(o.done0)
                [] s.of = "layer" -> Cardinality(InLayer(tb, o.tab0, s.layer))
                [] s.of = "mlo" -> IF o.done0 = {} THEN 0 ELSE Max({tb[k][2] : k \in o.done0})
                [] s.of = "dim" -> IF o.done0 = {} THEN 0 ELSE 1
        hi == CASE s.of = "nbp" -> Cardinality(bg)
                [] s.of = "layer" -> Cardinality(InLayer(tb, DOMAIN tb, s.layer))
                [] s.of = "mlo" -> IF DOMAIN tb = {} THEN 0 ELSE Max({tb[k][2] : k \in DOMAIN tb})
                [] s.of = "dim" -> IF DOMAIN tb = {} THEN 0 ELSE 1
    IN IF s.v < lo THEN "too low: " \o s.of ELSE IF s.v > hi THEN "too high: " \o s.of ELSE ""

ReadLook(s, o, tb) ==
    LET p == AtPos(tb, s.l, s.r)
    IN IF s.got /\ p = {} THEN "a lookup gives data at a position no point has"
       ELSE IF s.got THEN IF s.v # tb[CHOOSE k \in p : TRUE][5] THEN "a lookup gives the data of another point" ELSE ""
       ELSE IF p \cap o.done0 # {} THEN "a lookup gives nothing at the position of a stored point" ELSE ""

\* the neighbours of all lists, and how many
AllOf(lists) == UNION {lists[l] : l \in 1..Len(lists)}
NbOf(lists) == FoldLeft(LAMBDA a, x : a + Cardinality(x), 0, lists)
ReadFlat(s, o, tb) ==
    LET of(k) == CHOOSE j \in 1..Len(s.pts) : s.pts[j][1] = k
        there == {s.pts[j][1] : j \in {x \in 1..Len(s.pts) : s.pts[x][2]}}
        nb(k) == s.pts[of(k)][3]
    IN IF ~(there \subseteq DOMAIN tb) THEN "an extraction has an unknown point"
       ELSE IF ~(o.tab0 \subseteq there) THEN "an extraction leaves out a point stored when it began"
       ELSE IF \E k \in there : \A ls \in o.lists[k] : {<<e[1], e[2]>> : e \in Range(nb(k))} # AllOf(ls) \/ Len(nb(k)) # NbOf(ls)
            THEN "an extraction gives a point neighbours it never had together"
       ELSE IF \E k \in there : \E e \in Range(nb(k)) : e[1] \notin DOMAIN tb \/ <<tb[e[1]][2], tb[e[1]][3]>> # <<e[3], e[4]>>
            THEN "an extraction gives a neighbour with another position"
       ELSE IF \E k \in there : \E j \in 1..(Len(nb(k)) - 1) : nb(k)[j][2] > nb(k)[j + 1][2] THEN "an extraction gives neighbours out of order"
       ELSE ""

P23(t, s, tb, bg) ==
    IF s.op = "fail" THEN s.kind \o ": " \o s.msg
    ELSE IF s.op # "end" THEN ""
    ELSE CASE s.what = "iter" -> ReadIter(s, open[s.tid], tb)
           [] s.what = "cnt" -> ReadCnt(s, open[s.tid], tb, bg)
           [] s.what = "look" -> ReadLook(s, open[s.tid], tb)
           [] s.what = "flat" -> ReadFlat(s, open[s.tid], tb)
           [] OTHER -> ""

Opens(s) == IF PROP = "P22" THEN s.what = "dump" ELSE IF PROP = "P23" THEN s.what \in ReadKinds ELSE FALSE

Verdict(t, s, g1, g2, tb, tb2, bg) ==
    CASE PROP = "P08" -> P08(t, s, g1, g2, tb, tb2)
      [] PROP = "P09" -> P09(t, s, g2)
      [] PROP = "P10" -> P10(s)
      [] PROP = "P11" -> P11(t, s, bg)
      [] PROP = "P22" -> P22(t, s, g1, tb)
      [] PROP = "P23" -> P23(t, s, tb, bg)

----------------------------------------------------------------------------
Init == /\ tr \in 1..NT
        /\ i = 0
        /\ g = EmptyGraph
        /\ tab = <<>>
        /\ begun = {}
        /\ done = {}
        /\ open = <<>>
        /\ had = FALSE
        /\ mlo = 0
        /\ err = ""

Next == /\ err = ""
        /\ i < Len(T.steps)
        /\ LET t == Traces[tr]
               s == t.steps[i + 1]
               obs == IsObs(s)
               tab2 == IF obs THEN TabAfter(tab, s) ELSE tab
               g2 == IF obs THEN GraphAfter(g, tab2, s) ELSE g
               bg2 == IF s.op = "begin" /\ s.what = "ins" THEN begun \cup {s.k}
                      ELSE IF s.op = "init" THEN DOMAIN tab2 ELSE begun
           IN /\ g' = g2
              /\ tab' = tab2
              /\ begun' = bg2
              /\ done' = IF s.op = "init" THEN DOMAIN tab2
                         ELSE IF s.op = "end" THEN (IF s.what = "ins" THEN done \cup {s.k} ELSE done) ELSE done
              /\ open' = IF PROP \notin {"P22", "P23"} THEN open
                         ELSE IF s.op = "begin" /\ Opens(s)
                              THEN [x \in DOMAIN open \cup {s.tid} |-> IF x = s.tid THEN Opened(tab, g) ELSE open[x]]
                         ELSE IF s.op = "end" /\ Opens(s) THEN [x \in DOMAIN open \ {s.tid} |-> open[x]]
                         ELSE IF obs THEN [x \in DOMAIN open |-> Extended(open[x], g2)]
                         ELSE open
              /\ had' = IF obs THEN s.ep ELSE had
              /\ mlo' = IF obs THEN s.mlo ELSE mlo
              /\ err' = Verdict(t, s, g, g2, tab, tab2, begun)
        /\ i' = i + 1
        /\ UNCHANGED tr

Spec == Init /\ [][Next]_vars
Conforms == err = ""
\* what is printed of a behaviour which does not conform
Shown == [tr |-> tr, i |-> i, err |-> err]
TotalSteps == FoldLeft(LAMBDA a, t : a + Len(t.steps) + 1, 0, Traces)
AllRead == TLCGet("stats").distinct = TotalSteps
=============================================================================

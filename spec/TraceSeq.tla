------------------------------ MODULE TraceSeq ------------------------------
(***************************************************************************)
(* Validation of recorded sequential sessions against the specification.    *)
(* One line of the file TRACE is one session: the parameters, the distances *)
(* between all the vectors (inserted ones and queries), and the steps, each *)
(* with everything that changed in the index as seen through the public     *)
(* interface.  The observed state is taken over and each step must be in    *)
(* the relation that the property PROP states between the state before, the *)
(* call with its answer, and the state after.                               *)
(***************************************************************************)
EXTENDS HnswGraph, TLC, Json, IOUtils

CONSTANT PROP

Traces == ndJsonDeserialize(IOEnv.TRACE)
NT == Len(Traces)

VARIABLES tr, i, g, tab, err
vars == <<tr, i, g, tab, err>>

T == Traces[tr]
D == Traces[tr].D
P == Traces[tr].par

\* sessions in which all distances from any vector are distinct
TieFree == [t \in 1..NT |-> \A x \in 1..Len(Traces[t].D) :
               Cardinality({Traces[t].D[x][y] : y \in 1..Len(Traces[t].D)}) = Len(Traces[t].D)]
\* all the points of S are at distinct distances of q: this determines a search for q, and the choice of the neighbours of q,
\* whatever the order of equal distances in the lists of the graph
RowFree(d, q, S) == Cardinality({d[q][y] : y \in S}) = Cardinality(S)

Pairs(layers) == [l \in 1..Len(layers) |-> [j \in 1..Len(layers[l]) |-> <<layers[l][j][1], layers[l][j][2]>>]]

\* entry point after the insertion of k at level lvl
EntryAfter(gr, k, lvl) == IF gr.ep = 0 THEN k ELSE IF lvl > gr.lev[gr.ep] THEN k ELSE gr.ep

Changed(s) == {s.chg[j][1] : j \in 1..Len(s.chg)}
ChgOf(s, k) == LET j == CHOOSE j \in 1..Len(s.chg) : s.chg[j][1] = k IN s.chg[j][2]

GraphAfter(gr, s) ==
    LET ks == Keys(gr) \cup Changed(s) \cup (IF s.op = "ins" THEN {s.k} ELSE {})
    IN [lev |-> [k \in ks |-> IF k \in Keys(gr) THEN gr.lev[k] ELSE IF s.op = "ins" THEN s.lvl ELSE 0],
        nb  |-> [k \in ks |-> IF k \in Changed(s) THEN Pairs(ChgOf(s, k))
                              ELSE IF k \in Keys(gr) THEN gr.nb[k] ELSE <<>>],
        ep  |-> IF s.op = "ins" THEN EntryAfter(gr, s.k, s.lvl) ELSE gr.ep]

TabAfter(tb, s) ==
    LET ks == DOMAIN tb \cup {s.add[j][1] : j \in 1..Len(s.add)}
    IN [k \in ks |-> IF \E j \in 1..Len(s.add) : s.add[j][1] = k
                     THEN LET j == CHOOSE j \in 1..Len(s.add) : s.add[j][1] = k IN s.add[j]
                     ELSE tb[k]]

----------------------------------------------------------------------------
(* The relations.  Each gives "" or what is wrong.                          *)

CountIn(tb, l) == Cardinality({k \in DOMAIN tb : tb[k][2] = l})
DataAt(t, tb, l, r) == LET S == {k \in DOMAIN tb : tb[k][2] = l /\ tb[k][3] = r}
                       IN IF S = {} THEN "none" ELSE t.rows[CHOOSE k \in S : TRUE]

P01(t, s, tb, tb2, p) ==
    IF Len(s.del) > 0 THEN "a stored point moved, changed or disappeared"
    ELSE IF s.op # "ins" /\ Len(s.add) > 0 THEN "a point appeared without insertion"
    ELSE IF s.op = "ins" /\ Len(s.add) # 1 THEN "an insertion did not add exactly one point"
    ELSE IF s.op = "ins" /\ s.add[1][1] # s.k THEN "the stored external id is not the inserted one"
    ELSE IF s.op = "ins" /\ s.add[1][4] # t.ids[s.k] THEN "wrong external id"
    ELSE IF s.op = "ins" /\ s.add[1][5] # t.rows[s.k] THEN "wrong data"
    ELSE IF s.op = "ins" /\ ~(s.add[1][2] >= 0 /\ s.add[1][2] < p.maxl) THEN "level out of range"
    ELSE IF s.op = "ins" /\ s.add[1][3] # CountIn(tb, s.add[1][2]) THEN "the rank is not the next free one of the layer"
    ELSE IF s.op = "ins" /\ <<s.add[1][6], s.add[1][7]>> # <<s.add[1][2], s.add[1][3]>> THEN "the point reports another position"
    ELSE IF s.nbp # Cardinality(DOMAIN tb2) THEN "get_nb_point"
    ELSE IF s.cnt # [l \in 1..p.maxl |-> CountIn(tb2, l - 1)] THEN "get_layer_nb_point"
    ELSE IF ~s.full THEN ""
    ELSE LET v == s.view IN
         IF Len(v.it) # Cardinality(DOMAIN tb2) \/ Range(v.it) # DOMAIN tb2 THEN "iteration over all points"
         ELSE IF \E a \in 1..(Len(v.it) - 1) : tb2[v.it[a]][2] > tb2[v.it[a + 1]][2] THEN "iteration does not go upward"
         ELSE IF v.again THEN "an exhausted iterator gives a point"
         ELSE IF v.nbp2 # s.nbp THEN "get_nb_point of the indexation"
         ELSE IF \E j \in 1..Len(v.oob) : v.oob[j] # 0 THEN "number of points of a layer that does not exist"
         ELSE IF \E j \in 1..Len(v.look) : v.look[j][3] # DataAt(t, tb2, v.look[j][1], v.look[j][2]) THEN "get_point_data"
         ELSE IF DOMAIN tb2 = {} /\ v.dim # 0 THEN "dimension of an empty index"
         ELSE IF DOMAIN tb2 # {} /\ ~\E k \in DOMAIN tb2 : v.dim = t.dims[k] THEN "dimension"
         ELSE ""

\* lists as recorded: by position and by external id the same neighbour
SameKey(layers) == \A l \in 1..Len(layers) : \A j \in 1..Len(layers[l]) : layers[l][j][1] = layers[l][j][3]

P02(t, s, g2, d, p, last) ==
    IF \E j \in 1..Len(s.chg) : ~SameKey(s.chg[j][2]) THEN "a neighbour has not the external id of the point at its position"
    ELSE IF \E k \in (IF last THEN Keys(g2) ELSE Changed(s)) :
               \/ Len(g2.nb[k]) > 16
               \/ \E l \in 0..(Len(g2.nb[k]) - 1) : ~ListOK(g2, d, p, k, l)
         THEN "a neighbour list is not well formed"
    ELSE IF ~(Orphans(g2) \subseteq {1}) THEN "a point without neighbour in its own layer"
    ELSE ""

\* what an insertion of x at level lvl may change, whatever it chose
ListWithout(list, x) == SelectSeq(list, LAMBDA e : e[1] # x)
\* l2 is l1 with x (at distance dx) added in order, the farthest dropped if it overflows
Added(l1, l2, x, dx, cap) ==
    LET rest == ListWithout(l2, x)
        has == x \in ListKeys(l2)
        dists(s) == [j \in 1..Len(s) |-> s[j][2]]
    IN IF Len(l1) < cap
       THEN has /\ Len(rest) = Len(l1) /\ dists(rest) = dists(l1) /\ Range(rest) = Range(l1)
       ELSE /\ Range(rest) \subseteq Range(l1)
            /\ Len(l2) = Len(l1)
            /\ IF has THEN /\ dists(rest) = SubSeq(dists(l1), 1, Len(l1) - 1)
                           /\ dx <= l1[Len(l1)][2]
               ELSE rest = l2 /\ dists(l2) = dists(l1) /\ dx >= l1[Len(l1)][2]

InsertFrame(g1, g2, d, p, x, lvl) ==
    LET n == g2.nb[x]
        back == BackTargets(n, lvl) \ {x}
    IN \A k \in Keys(g1) : \A l \in 0..(Max({Len(g1.nb[k]), Len(g2.nb[k])}) - 1) :
         IF k \in back /\ l = lvl THEN Added(NB(g1, k, l), NB(g2, k, l), x, d[k][x], Cap(p, l))
         ELSE NB(g1, k, l) = NB(g2, k, l)

P03(t, s, g1, g2, d, p, exact, row) ==
    IF s.op = "reload" THEN ""
    ELSE IF s.op # "ins" THEN (IF Len(s.chg) > 0 THEN "the graph changed without insertion" ELSE "")
    ELSE IF ~InsertFrame(g1, g2, d, p, s.k, s.lvl) THEN "the insertion changed lists it should not, or did not add the new point to its neighbours"
    ELSE IF ~row THEN ""
    \* the options of the insertion are those at the time of the call
    ELSE LET e == Insert(g1, d, [p EXCEPT !.ext = s.ext, !.keep = s.keep], s.k, s.lvl) IN
         IF e.nb[s.k] # g2.nb[s.k] THEN "the new point has other neighbours than the algorithm chooses"
         ELSE IF exact /\ e.nb # g2.nb THEN "other lists than the algorithm gives"
         ELSE ""

AnsPairs(a) == [j \in 1..Len(a) |-> <<a[j][1], a[j][2]>>]

Sound(a, s, gr, d) ==
    /\ Len(a) <= s.k
    /\ \A j \in 1..Len(a) : a[j][1] = a[j][3] /\ a[j][1] \in Keys(gr) /\ a[j][2] = d[s.q][a[j][1]]
    /\ \A j, m \in 1..Len(a) : j < m => a[j][2] <= a[m][2] /\ a[j][1] # a[m][1]

P04(s, g1, d) ==
    IF s.op # "srch" THEN ""
    ELSE IF ~Sound(s.ans, s, g1, d) THEN "unsound answer"
    ELSE IF Len(s.ans) = 0 /\ ~s.fon /\ Keys(g1) # {} /\ s.k >= 1 /\ s.ef >= 1 THEN "empty answer"
    ELSE IF Len(s.ans) # 0 /\ Keys(g1) = {} THEN "an answer from an empty index"
    ELSE IF s.ans # s.ans2 THEN "the same query gives another answer"
    ELSE IF Len(s.chg) + Len(s.add) + Len(s.del) > 0 \/ s.nbp # Cardinality(Keys(g1)) THEN "the search changed the index"
    ELSE ""

P05(s, g1, d, row) ==
    IF s.op # "srch" \/ s.fon \/ ~row THEN ""
    ELSE IF AnsPairs(s.ans) # Search(g1, d, s.q, s.k, s.ef, NoFilter) THEN "not the answer of the documented traversal"
    ELSE IF Keys(g1) # {} /\ Max({s.k, s.ef}) >= Cardinality(Keys(g1))
            /\ AnsPairs(s.ans) # LET r == AsList(d, s.q, Reach(g1, StartOf(g1, d, s.q), LowestLayer(g1)))
                                 IN SubSeq(r, 1, Min({s.k, Len(r)}))
         THEN "not the nearest of the reachable points"
    ELSE ""

P06(s, g1, d, row) ==
    IF s.op # "srch" \/ ~s.fon THEN ""
    ELSE LET acc == Range(s.acc) IN
         IF ~Sound(s.ans, s, g1, d) \/ s.ans # s.ans2 THEN "unsound answer"
         ELSE IF \E j \in 1..Len(s.ans) : s.ans[j][1] \notin acc THEN "a rejected point in the answer"
         ELSE IF ~row \/ Keys(g1) = {} THEN ""
         ELSE IF acc = Keys(g1) /\ AnsPairs(s.ans) # Search(g1, d, s.q, s.k, s.ef, NoFilter)
              THEN "a filter accepting everything changes the answer"
         ELSE IF Max({s.k, s.ef}) >= Cardinality(Keys(g1))
                 /\ AnsPairs(s.ans) # LET r == AsList(d, s.q, Reach(g1, StartOf(g1, d, s.q), LowestLayer(g1)) \cap acc)
                                      IN SubSeq(r, 1, Min({s.k, Len(r)}))
              THEN "not the nearest accepted reachable points"
         ELSE ""

P09(t, s, g2) ==
    IF s.mlo # MaxLevel(g2) THEN "the entry point is not at the highest level"
    ELSE IF ~(Orphans(g2) \subseteq {1}) THEN "a point without neighbour in its own layer"
    ELSE ""

\* the same lists, up to the order of equal distances
SameList(a, b) == /\ [j \in 1..Len(a) |-> a[j][2]] = [j \in 1..Len(b) |-> b[j][2]]
                  /\ Range(a) = Range(b)
SameLists(g1, g2, k) == /\ Len(g1.nb[k]) = Len(g2.nb[k])
                        /\ \A l \in 1..Len(g1.nb[k]) : SameList(g1.nb[k][l], g2.nb[k][l])

\* a step of a session in which the index may have been dumped and reloaded; tw: a twin which was never reloaded did the same call
P12(t, s, g1, g2, d, p, tb, tb2, exact, row) ==
    IF s.op = "noload" THEN "a dump that succeeded is refused: " \o s.msg
    ELSE IF s.op = "nodump" THEN (IF Keys(g1) # {} /\ p.maxl = 16 THEN "the dump fails: " \o s.msg ELSE "")
    ELSE IF s.op = "reload"
         THEN IF Len(s.add) + Len(s.del) > 0 THEN "the reloaded index has other points, positions, external ids or data"
              ELSE IF \E k \in Keys(g2) : ~(k \in Keys(g1) /\ SameLists(g1, g2, k)) THEN "the reloaded index has other neighbour lists"
              ELSE IF \E j \in 1..Len(s.chg) : ~SameKey(s.chg[j][2]) THEN "a neighbour has not the external id of the point at its position"
              ELSE IF s.before # s.after THEN "the reloaded index has other parameters"
              ELSE IF s.nbp # Cardinality(DOMAIN tb) \/ s.cnt # [l \in 1..p.maxl |-> CountIn(tb, l - 1)] THEN "the reloaded index has other counts"
              ELSE IF s.mlo # g1.lev[g1.ep] THEN "the reloaded index has another entry point"
              ELSE ""
    ELSE IF s.op = "ins"
         THEN IF P01(t, s, tb, tb2, p) # "" THEN P01(t, s, tb, tb2, p)
              ELSE IF P03(t, s, g1, g2, d, p, exact, row) # "" THEN P03(t, s, g1, g2, d, p, exact, row)
              ELSE IF exact /\ s.tw /\ (s.twchg # s.chg \/ s.twadd # s.add) THEN "the insertion does not proceed as in the original index"
              ELSE ""
    ELSE IF s.op = "srch"
         THEN IF exact /\ s.tw /\ s.twans # s.ans THEN "another answer than the original index gives"
              ELSE IF ~s.fon /\ P05(s, g1, d, row) # "" THEN P05(s, g1, d, row)
              ELSE ""
    ELSE ""

Verdict(t, s, g1, g2, tb, tb2, last, exact, row) ==
    IF s.op = "panic" THEN "panic: " \o s.msg
    ELSE CASE PROP = "P01" -> P01(t, s, tb, tb2, t.par)
           [] PROP = "P02" -> P02(t, s, g2, t.D, t.par, last)
           [] PROP = "P03" -> P03(t, s, g1, g2, t.D, t.par, exact, row)
           [] PROP = "P04" -> P04(s, g1, t.D)
           [] PROP = "P05" -> P05(s, g1, t.D, row)
           [] PROP = "P06" -> P06(s, g1, t.D, row)
           [] PROP = "P09" -> P09(t, s, g2)
           [] PROP = "P12" -> P12(t, s, g1, g2, t.D, t.par, tb, tb2, exact, row)

----------------------------------------------------------------------------
Init == /\ tr \in 1..NT
        /\ i = 0
        /\ g = EmptyGraph
        /\ tab = <<>>
        /\ err = ""

Next == /\ err = ""
        /\ i < Len(T.steps)
        /\ LET t == Traces[tr]
               s == t.steps[i + 1]
               fine == s.op # "panic"
               g2 == IF fine THEN GraphAfter(g, s) ELSE g
               tab2 == IF fine THEN TabAfter(tab, s) ELSE tab
               row == CASE s.op = "ins" -> RowFree(t.D, s.k, Keys(g))
                        [] s.op = "srch" -> RowFree(t.D, s.q, Keys(g))
                        [] OTHER -> FALSE
           IN /\ g' = g2
              /\ tab' = tab2
              /\ err' = Verdict(t, s, g, g2, tab, tab2, i + 1 = Len(t.steps), TieFree[tr], row)
        /\ i' = i + 1
        /\ UNCHANGED tr

Spec == Init /\ [][Next]_vars

Conforms == err = ""
\* what is printed of a behaviour which does not conform
Shown == [tr |-> tr, i |-> i, err |-> err]

\* every session was read to its end (states of a session are i = 0 .. number of steps)
TotalSteps == FoldLeft(LAMBDA a, t : a + Len(t.steps) + 1, 0, Traces)
AllRead == TLCGet("stats").distinct = TotalSteps
=============================================================================

----------------------------- MODULE TraceLarge -----------------------------
(***************************************************************************)
(* Validation of sessions on larger indexes: many points at once            *)
(* (sequentially or in parallel), then searches, parallel searches,         *)
(* extraction of the neighbourhood, dump and reload, insertions one by one. *)
(* The points have integer coordinates xs and the distance is the sum of    *)
(* the differences of coordinates, which the specification computes.        *)
(*                                                                          *)
(* State: the graph g, pos[k] the position <<layer, rank>> of the point k.  *)
(***************************************************************************)
EXTENDS HnswGraph, TLC, Json, IOUtils

CONSTANT PROP

Traces == ndJsonDeserialize(IOEnv.TRACE)
NT == Len(Traces)

VARIABLES tr, i, g, pos, err
vars == <<tr, i, g, pos, err>>
T == Traces[tr]

Dif(a, b) == IF a < b THEN b - a ELSE a - b
Dist(x, y) == IF Len(x) = 1 THEN Dif(x[1], y[1]) ELSE Dif(x[1], y[1]) + Dif(x[2], y[2])
\* (a function evaluated only where it is applied)
DOf(t) == [a \in 1..Len(t.xs) |-> [b \in 1..Len(t.xs) |-> Dist(t.xs[a], t.xs[b])]]

RowFree(t, q, S) == Cardinality({Dist(t.xs[q], t.xs[y]) : y \in S}) = Cardinality(S)

Pairs(layers) == [l \in 1..Len(layers) |-> [j \in 1..Len(layers[l]) |-> <<layers[l][j][1], layers[l][j][2]>>]]
SameKey(layers) == \A l \in 1..Len(layers) : \A j \in 1..Len(layers[l]) : layers[l][j][1] = layers[l][j][3]
Full(s) == s.op \in {"bulk", "reload"}

\* the state observed after a step
GraphAfter(gr, s) ==
    CASE Full(s) -> [lev |-> [k \in 1..s.upto |-> s.pos[k][1]], nb |-> [k \in 1..s.upto |-> Pairs(s.nb[k])], ep |-> s.ep]
      [] s.op = "ins" ->
           LET ch == {s.chg[j][1] : j \in 1..Len(s.chg)}
               new == [k \in ch |-> Pairs(s.chg[CHOOSE j \in 1..Len(s.chg) : s.chg[j][1] = k][2])]
           IN [lev |-> [k \in 1..s.k |-> IF k = s.k THEN s.pos[1] ELSE gr.lev[k]],
               nb  |-> [k \in 1..s.k |-> IF k = s.k THEN Pairs(s.nb) ELSE IF k \in ch THEN new[k] ELSE gr.nb[k]],
               ep  |-> IF gr.ep = 0 \/ s.pos[1] > gr.lev[gr.ep] THEN s.k ELSE gr.ep]
      [] OTHER -> gr
PosAfter(ps, s) == CASE Full(s) -> [k \in 1..s.upto |-> <<s.pos[k][1], s.pos[k][2]>>]
                     [] s.op = "ins" -> Append(ps, <<s.pos[1], s.pos[2]>>)
                     [] OTHER -> ps

NAt(ps, l) == Cardinality({k \in 1..Len(ps) : ps[k][1] = l})
Counts(ps) == [l \in 1..16 |-> NAt(ps, l - 1)]
Right(t, k, x) == /\ x[3] = t.ids[k] /\ x[4] = t.rows[k] /\ x[1] = x[5] /\ x[2] = x[6]
Data(t, key) == IF key = 0 THEN "none" ELSE t.rows[key]

P01(t, s, p1, p2) ==
    IF s.op \notin {"bulk", "reload", "ins"} THEN ""
    ELSE IF s.odd # 0 THEN "a point met twice, or that nobody inserted"
    ELSE IF s.nbp # Len(p2) THEN "get_nb_point"
    ELSE IF \E k \in 1..Len(p2) : p2[k][1] \notin 0..15 THEN "a point is not in the index, or not in a layer"
    ELSE IF s.cnt # Counts(p2) THEN "get_layer_nb_point"
    ELSE IF \E k \in 1..Len(p1) : p1[k] # p2[k] THEN "a stored point moved"
    ELSE IF s.op = "ins" THEN (IF ~Right(t, s.k, s.pos) THEN "the new point has not its id, its data or its position"
                               ELSE IF s.pos[2] # NAt(p1, s.pos[1]) THEN "the rank is not the next free one of the layer"
                               ELSE IF \E j \in 1..Len(s.chg) : ~Right(t, s.chg[j][1], s.chg[j][3]) THEN "a stored point changed"
                               ELSE "")
    ELSE IF \E k \in 1..s.upto : ~Right(t, k, s.pos[k]) THEN "a point has not its id, its data or its position"
    ELSE IF \E l \in 0..15 : {p2[k][2] : k \in {k \in 1..Len(p2) : p2[k][1] = l}} # 0..(s.cnt[l + 1] - 1)
         THEN "the ranks of a layer are not dense"
    ELSE IF Len(s.it) # Len(p2) \/ Range(s.it) # 1..Len(p2) THEN "iteration over all points"
    ELSE IF \E a \in 1..(Len(s.it) - 1) : p2[s.it[a]][1] > p2[s.it[a + 1]][1] THEN "iteration does not go upward"
    ELSE IF \E j \in 1..Len(s.look) : s.look[j][4] # Data(t, s.look[j][3]) THEN "get_point_data"
    ELSE IF \E j \in 1..Len(s.look) : s.look[j][3] # 0 /\ p2[s.look[j][3]] # <<s.look[j][1], s.look[j][2]>> THEN "position"
    ELSE ""

P02(t, s, g2, d) ==
    IF Full(s)
    THEN IF \E k \in 1..s.upto : ~SameKey(s.nb[k]) THEN "a neighbour has not the external id of the point at its position"
         ELSE IF ~WellFormed(g2, d, t.par) THEN "a neighbour list is not well formed"
         ELSE IF Cardinality(Orphans(g2)) > 1 THEN "a point without neighbour in its own layer"
         ELSE ""
    ELSE IF s.op = "ins"
    THEN LET ch == {s.chg[j][1] : j \in 1..Len(s.chg)} \cup {s.k} IN
         IF ~SameKey(s.nb) \/ \E j \in 1..Len(s.chg) : ~SameKey(s.chg[j][2]) THEN "a neighbour has not the external id of the point at its position"
         ELSE IF \E k \in ch : Len(g2.nb[k]) > 16 \/ \E l \in 0..(Len(g2.nb[k]) - 1) : ~ListOK(g2, d, t.par, k, l) THEN "a neighbour list is not well formed"
         ELSE IF NB(g2, s.k, g2.lev[s.k]) = <<>> THEN "a point without neighbour in its own layer"
         ELSE ""
    ELSE ""

P03(t, s, g1, g2, d) ==
    IF s.op # "ins" THEN ""
    ELSE IF g1.ep \notin Keys(g1) THEN "the entry point is not known"
    ELSE IF ~RowFree(t, s.k, Keys(g1)) THEN ""
    ELSE LET e == Insert(g1, d, t.par, s.k, g2.lev[s.k])
         IN IF e.nb[s.k] # g2.nb[s.k] THEN "the new point has other neighbours than the algorithm chooses"
            ELSE IF \E k \in Keys(g1) : /\ e.nb[k] # g2.nb[k]
                                        /\ \A l \in 0..(Len(g1.nb[k]) - 1) : Cardinality({e1[2] : e1 \in Range(NB(e, k, l))}) = Len(NB(e, k, l))
                 THEN "other lists than the algorithm gives"
            ELSE ""

AnsPairs(a) == [j \in 1..Len(a) |-> <<a[j][1], a[j][2]>>]
Sound(a, k, q, gr, d) ==
    /\ Len(a) <= k
    /\ \A j \in 1..Len(a) : a[j][1] = a[j][3] /\ a[j][1] \in Keys(gr) /\ a[j][2] = d[q][a[j][1]]
    /\ \A j \in 1..(Len(a) - 1) : a[j][2] <= a[j + 1][2]
    /\ Cardinality({a[j][1] : j \in 1..Len(a)}) = Len(a)

P04(s, g1, d) ==
    IF s.op # "srch" THEN ""
    ELSE IF ~Sound(s.ans, s.k, s.q, g1, d) THEN "unsound answer"
    ELSE IF s.ans = <<>> /\ ~s.fon THEN "empty answer"
    ELSE IF s.ans # s.ans2 THEN "the same query gives another answer"
    ELSE ""

P05(t, s, g1, d) ==
    IF s.op # "srch" \/ s.fon THEN ""
    ELSE IF ~RowFree(t, s.q, Keys(g1)) THEN ""
    ELSE IF AnsPairs(s.ans) # Search(g1, d, s.q, s.k, s.ef, NoFilter) THEN "not the answer of the documented traversal"
    ELSE ""

P06(s, g1, d) ==
    IF s.op # "srch" \/ ~s.fon THEN ""
    ELSE IF ~Sound(s.ans, s.k, s.q, g1, d) \/ s.ans # s.ans2 THEN "unsound answer"
    ELSE IF ~({s.ans[j][1] : j \in 1..Len(s.ans)} \subseteq Range(s.acc)) THEN "a rejected point in the answer"
    ELSE ""

P07(s, g1, d) ==
    IF s.op # "psrch" THEN ""
    ELSE IF Len(s.par) # Len(s.qs) THEN "not one answer per request"
    ELSE IF s.par # s.seq THEN "another answer than the sequential search"
    ELSE IF \E j \in 1..Len(s.qs) : ~Sound(s.par[j], s.k, s.qs[j], g1, d) THEN "unsound answer"
    ELSE ""

P09(s, g2) ==
    IF s.op \notin {"bulk", "reload", "ins"} THEN ""
    ELSE IF s.mlo # MaxLevel(g2) THEN "the reported highest level is not the highest level"
    ELSE IF ~EntryAtTop(g2) THEN "the entry point is not at the highest level"
    ELSE IF Cardinality(Orphans(g2)) > 1 THEN "a point without neighbour in its own layer"
    ELSE ""

SameList(a, b) == /\ [j \in 1..Len(a) |-> a[j][2]] = [j \in 1..Len(b) |-> b[j][2]]
                  /\ Range(a) = Range(b)
SameLists(a, b) == Len(a) = Len(b) /\ \A l \in 1..Len(a) : a[l] = b[l] \/ SameList(a[l], b[l])

P12(t, s, g1, g2, p1, p2) ==
    IF s.op # "reload" THEN ""
    ELSE IF P01(t, s, p1, p2) # "" THEN P01(t, s, p1, p2)
    ELSE IF s.before # s.after THEN "the reloaded index has other parameters"
    ELSE IF g1.ep # g2.ep THEN "the reloaded index has another entry point"
    ELSE IF \E k \in 1..s.upto : ~SameKey(s.nb[k]) THEN "a neighbour has not the external id of the point at its position"
    ELSE IF \E k \in 1..s.upto : ~SameLists(g1.nb[k], g2.nb[k]) THEN "the reloaded index has other neighbour lists"
    ELSE IF s.mlo # g1.lev[g1.ep] THEN "the reloaded index has another highest level"
    ELSE ""

\* the data file alone, mapped: the stored points in the order of the positions
P14(t, s, p1) ==
    IF s.op # "map" THEN ""
    ELSE IF s.nb # Len(p1) \/ ~s.chk THEN "the mapped data file: number of data, or its own type refused"
    ELSE IF Len(s.ids) # Len(p1) \/ Range(s.ids) # 1..Len(p1) THEN "the mapped data file has other ids"
    ELSE IF \E j \in 1..(Len(s.ids) - 1) : ~(\/ p1[s.ids[j]][1] < p1[s.ids[j + 1]][1]
                                              \/ (p1[s.ids[j]][1] = p1[s.ids[j + 1]][1] /\ p1[s.ids[j]][2] < p1[s.ids[j + 1]][2]))
         THEN "the mapped data file gives ids in another order than the file"
    ELSE IF \E j \in 1..Len(s.ids) : s.data[j] # Data(t, s.ids[j]) THEN "the mapped data file gives other data"
    ELSE IF s.absent # 0 THEN "the mapped data file gives data for an id that is not in it"
    ELSE ""

\* a dump made while threads insert, reloaded; p1: the positions at the end; g2: the graph of the dump, where nb is restricted to its points
P22(t, s, p1, d) ==
    IF s.op # "cdump" THEN ""
    ELSE LET S == {k \in 1..s.upto : s.pos[k][1] >= 0}
             gd == [lev |-> [k \in S |-> s.pos[k][1]], nb |-> [k \in S |-> Pairs(s.nb[k])], ep |-> s.ep]
         IN IF s.odd # 0 THEN "dump during insertions: a point met twice, or that nobody inserted"
            ELSE IF ~(Range(s.before) \subseteq S) THEN "dump during insertions: without a point whose insertion was over"
            ELSE IF s.nbp # Cardinality(S) \/ s.cnt # [l \in 1..16 |-> Cardinality({k \in S : s.pos[k][1] = l - 1})] THEN "dump during insertions: counts"
            ELSE IF \E k \in S : ~Right(t, k, s.pos[k]) \/ p1[k] # <<s.pos[k][1], s.pos[k][2]>>
                 THEN "dump during insertions: a point has not its id, its data or its position"
            ELSE IF s.ep \notin S THEN "dump during insertions: the entry point is not in it"
            ELSE IF \E k \in Range(s.before) : s.pos[k][1] > s.pos[s.ep][1] THEN "dump during insertions: the entry point is under a point inserted before"
            ELSE IF s.mlo # s.pos[s.ep][1] THEN "dump during insertions: highest level"
            ELSE IF \E k \in S : ~SameKey(s.nb[k]) THEN "dump during insertions: a neighbour has not the id of the point at its position"
            ELSE IF \E k \in S : Len(gd.nb[k]) > 16 \/ \E l \in 1..Len(gd.nb[k]) : \E j \in 1..Len(gd.nb[k][l]) : gd.nb[k][l][j][1] \notin S
                 THEN "dump during insertions: a neighbour which is not in the dump"
            ELSE IF \E k \in S : \E l \in 1..Len(gd.nb[k]) :
                       LET list == gd.nb[k][l] IN
                       \/ Len(list) > Cap(t.par, l - 1)
                       \/ \E j \in 1..Len(list) : list[j][1] = k \/ list[j][2] # d[k][list[j][1]]
                       \/ \E j \in 1..(Len(list) - 1) : list[j][2] > list[j + 1][2]
                       \/ Cardinality({list[j][1] : j \in 1..Len(list)}) # Len(list)
                 THEN "dump during insertions: a neighbour list is not well formed"
            ELSE ""

\* all the neighbours over all the layers, by increasing distance
P16(s, g1) ==
    IF s.op # "flat" THEN ""
    ELSE IF s.unknown # 0 THEN "a neighbourhood for an id which is not stored"
    ELSE IF \E k \in Keys(g1) :
              LET f == s.flat[k]
                  all == FoldLeft(LAMBDA a, b : a \o b, <<>>, g1.nb[k])
                  pairs == {<<f[j][1], f[j][2]>> : j \in 1..Len(f)}
              IN \/ Len(f) # Len(all)
                 \/ \E j \in 1..(Len(f) - 1) : f[j][2] > f[j + 1][2]
                 \/ pairs # Range(all)
                 \/ (Len(f) # Cardinality(pairs)
                     /\ \E x \in pairs : Cardinality({j \in 1..Len(f) : f[j] = x}) # Cardinality({j \in 1..Len(all) : all[j] = x}))
         THEN "the neighbourhood of a point is not what its lists give"
    ELSE ""

----------------------------------------------------------------------------
(* Reads and searches by two threads while three others insert: the thread  *)
(* of the key k is (k-1) % 3.  over, begun: how many insertions of each     *)
(* thread were over before the read, begun before its end.  p1: the         *)
(* positions at the end, which are those from the beginning.                *)
Nth(k, c) == (k - 1) \div 3 < c[((k - 1) % 3) + 1]
OverKeys(s, p1) == {k \in 1..Len(p1) : Nth(k, s.over)}
BegunKeys(s, p1) == {k \in 1..Len(p1) : Nth(k, s.begun)}
Sum3(c) == c[1] + c[2] + c[3]
Placed(s, p1, e) == e[1] \in 1..Len(p1) /\ Nth(e[1], s.begun) /\ p1[e[1]] = <<e[3], e[4]>>

P11(t, s, p1, d) ==
    IF s.op # "cread" \/ (s.op = "cread" /\ s.what # "srch") THEN ""
    ELSE IF Len(s.ans) > s.k THEN "search during insertions: more neighbours than asked"
    ELSE IF \E j \in 1..Len(s.ans) : ~Placed(s, p1, s.ans[j]) THEN "search during insertions: a neighbour which is not a point, or has not its position"
    ELSE IF \E j \in 1..Len(s.ans) : s.ans[j][2] # d[s.q][s.ans[j][1]] THEN "search during insertions: distance"
    ELSE IF \E j \in 1..(Len(s.ans) - 1) : s.ans[j][2] > s.ans[j + 1][2] THEN "search during insertions: order"
    ELSE IF Cardinality({s.ans[j][1] : j \in 1..Len(s.ans)}) # Len(s.ans) THEN "search during insertions: a neighbour twice"
    ELSE IF s.fon /\ \E j \in 1..Len(s.ans) : s.ans[j][1] \notin Range(s.acc) THEN "search during insertions: a rejected point"
    ELSE IF ~s.fon /\ Sum3(s.over) > 0 /\ Len(s.ans) = 0 THEN "search during insertions: nothing found"
    ELSE ""

P23(t, s, p1, d) ==
    IF s.op # "cread" THEN ""
    ELSE CASE s.what = "iter" ->
                LET ks == {s.it[j][1] : j \in 1..Len(s.it)}
                    in(k) == s.layer < 0 \/ p1[k][1] = s.layer
                IN IF Cardinality(ks) # Len(s.it) \/ ~(ks \subseteq BegunKeys(s, p1)) THEN "iteration during insertions: an unknown point, or a point twice"
                   ELSE IF \E j \in 1..Len(s.it) : p1[s.it[j][1]] # <<s.it[j][2], s.it[j][3]>> \/ ~in(s.it[j][1]) THEN "iteration during insertions: position"
                   ELSE IF \E k \in OverKeys(s, p1) \ ks : in(k) THEN "iteration during insertions: without a point whose insertion was over"
                   ELSE IF \E j \in 1..(Len(s.it) - 1) : s.it[j][2] > s.it[j + 1][2] \/ (s.it[j][2] = s.it[j + 1][2] /\ s.it[j][3] >= s.it[j + 1][3])
                        THEN "iteration during insertions: order"
                   ELSE ""
           [] s.what = "nbp" -> IF s.v < Sum3(s.over) \/ s.v > Sum3(s.begun) THEN "number of points during insertions" ELSE ""
           [] s.what = "layer" -> IF \/ s.v < Cardinality({k \in OverKeys(s, p1) : p1[k][1] = s.layer})
                                     \/ s.v > Cardinality({k \in BegunKeys(s, p1) : p1[k][1] = s.layer}) THEN "number of points of a layer during insertions" ELSE ""
           [] s.what = "mlo" -> IF \/ \E k \in OverKeys(s, p1) : p1[k][1] > s.v
                                   \/ s.v > 0 /\ ~(\E k \in BegunKeys(s, p1) : p1[k][1] = s.v) THEN "highest level during insertions" ELSE ""
           [] s.what = "look" ->
                LET ks == {k \in 1..Len(p1) : p1[k] = <<s.l, s.r>>}
                IN IF s.got THEN IF \E k \in ks : Nth(k, s.begun) /\ t.rows[k] = s.v THEN "" ELSE "lookup during insertions: data which no point has there"
                   ELSE IF \E k \in ks : Nth(k, s.over) THEN "lookup during insertions: nothing at the position of a stored point" ELSE ""
           [] s.what = "flat" ->
                LET missing(j) == Len(s.nb[j]) = 1 /\ s.nb[j][1][1] = -1
                    N == 1..Len(s.of)
                IN IF \E j \in N : missing(j) /\ Nth(s.of[j], s.over) THEN "extraction during insertions: without a point whose insertion was over"
                   ELSE IF \E j \in N : ~missing(j) /\ ~Nth(s.of[j], s.begun) THEN "extraction during insertions: an unknown point"
                   ELSE IF \E j \in N : ~missing(j) /\ \E m \in 1..Len(s.nb[j]) : ~Placed(s, p1, s.nb[j][m]) \/ s.nb[j][m][2] # d[s.of[j]][s.nb[j][m][1]]
                        THEN "extraction during insertions: a neighbour which is not a point, or has not its position or distance"
                   ELSE IF \E j \in N : ~missing(j) /\ \E m \in 1..(Len(s.nb[j]) - 1) : s.nb[j][m][2] > s.nb[j][m + 1][2] THEN "extraction during insertions: order"
                   ELSE ""
           [] OTHER -> ""

Verdict(t, s, g1, g2, p1, p2) ==
    IF s.op = "panic" THEN "panic: " \o s.msg
    ELSE LET d == DOf(t) IN
         CASE PROP = "P01" -> P01(t, s, p1, p2)
           [] PROP = "P02" -> P02(t, s, g2, d)
           [] PROP = "P03" -> P03(t, s, g1, g2, d)
           [] PROP = "P04" -> P04(s, g1, d)
           [] PROP = "P05" -> P05(t, s, g1, d)
           [] PROP = "P06" -> P06(s, g1, d)
           [] PROP = "P07" -> P07(s, g1, d)
           [] PROP = "P08" -> IF P01(t, s, p1, p2) # "" THEN P01(t, s, p1, p2) ELSE P02(t, s, g2, d)
           [] PROP = "P09" -> P09(s, g2)
           [] PROP \in {"P12", "P14"} -> IF s.op = "map" THEN P14(t, s, p1) ELSE P12(t, s, g1, g2, p1, p2)
           [] PROP = "P22" -> P22(t, s, p1, d)
           [] PROP = "P11" -> P11(t, s, p1, d)
           [] PROP = "P23" -> P23(t, s, p1, d)
           [] PROP = "P16" -> P16(s, g1)

Init == tr \in 1..NT /\ i = 0 /\ g = EmptyGraph /\ pos = <<>> /\ err = ""
Next == /\ err = ""
        /\ i < Len(T.steps)
        /\ LET s == T.steps[i + 1]
               fine == s.op # "panic"
               g2 == IF fine THEN GraphAfter(g, s) ELSE g
               p2 == IF fine THEN PosAfter(pos, s) ELSE pos
           IN /\ g' = g2
              /\ pos' = p2
              /\ err' = Verdict(T, s, g, g2, pos, p2)
        /\ i' = i + 1
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
Conforms == err = ""
\* what is printed of a behaviour which does not conform
Shown == [tr |-> tr, i |-> i, err |-> err]
TotalSteps == FoldLeft(LAMBDA a, t : a + Len(t.steps) + 1, 0, Traces)
AllRead == TLCGet("stats").distinct = TotalSteps
=============================================================================

------------------------------ MODULE HnswConc ------------------------------
(***************************************************************************)
(* Concurrent use of one index: one action per critical section of the      *)
(* code.  Each thread runs one operation: an insertion (of a given key at a *)
(* given level), a search, or an iteration over all points.                 *)
(*                                                                          *)
(* Four constants restore  defects the code had, to show what the           *)
(* properties exclude and that the model is fine grained enough to see it:  *)
(*   HoldOwn    the list of the new point stays read-locked while its       *)
(*              neighbours are updated (deadlock of two insertions)         *)
(*   NoRecheck  the first insertion does not look at the entry point again  *)
(*              under the write lock (a point without any link)             *)
(*   RecRead    the iterator takes a second read lock on the table          *)
(*   CountFirst a dump counts the points before it locks the table          *)
(***************************************************************************)
EXTENDS HnswGraph, TLC, Json, IOUtils

CONSTANTS NPre,        \* points inserted before the threads start: keys 1..NPre
          PreLevels,   \* set of possible levels of these points
          InsLevels,   \* set of levels of the points inserted by threads
          Kinds,       \* set of tuples of operation kinds, one per thread: "ins", "srch", "iter"
          Ms, Efcs, NPerm, Seed,
          HoldOwn, NoRecheck, RecRead, CountFirst,
          EmitOne      \* print one final state out of EmitOne (0: none)

MaxThreads == 3
\* keys: prefilled, then one per thread (if it inserts), then a query per thread
MaxKeys == NPre + MaxThreads
QueryKey(t) == NPre + MaxThreads + 1
NK == MaxKeys + 1
Pairs == {<<a, b>> \in (1..NK) \X (1..NK) : a < b}
NP == Cardinality(Pairs)
PairIdx == [pr \in Pairs |-> Cardinality({x \in Pairs : x[1] < pr[1] \/ (x[1] = pr[1] /\ x[2] < pr[2])}) + 1]
DistOf(order) == [x \in 1..NK |-> [y \in 1..NK |->
                    IF x = y THEN 0 ELSE IF x < y THEN order[PairIdx[<<x, y>>]] ELSE order[PairIdx[<<y, x>>]]]]
LCG(s) == (s * 1103 + 12345) % 65521
RECURSIVE Shuffle(_, _, _)
Shuffle(seq, s, n) ==
    IF n <= 1 THEN seq
    ELSE LET s2 == LCG(s)
             j == (s2 % n) + 1
         IN Shuffle([seq EXCEPT ![n] = seq[j], ![j] = seq[n]], s2, n - 1)
IdSeq == [j \in 1..NP |-> j]
Orders == {Shuffle(IdSeq, LCG(LCG(Seed * 7919 + j * 104 + 1)), NP) : j \in 1..NPerm}

\* a few choices of constants for the configurations
LowLevels == {0, 1}
HighLevels == {0, 2}
AllLevels == {0, 1, 2}
OnlyZero == {0}
KInsIns == {<<"ins", "ins">>}
KInsSrch == {<<"ins", "srch">>, <<"ins", "ins", "srch">>}
KMixed == {<<"ins", "ins">>, <<"ins", "srch">>, <<"ins", "iter">>, <<"ins", "ins", "iter">>}
KDump == {<<"ins", "dump">>, <<"ins", "ins", "dump">>}
KIns3 == {<<"ins", "ins", "ins">>}

VARIABLES D, par, g,
          th,      \* thread -> local state
          rd,      \* key -> threads holding the lists of this point for reading (across steps)
          ww,      \* key -> threads waiting to change the lists of this point
          tabr,    \* threads holding the table for reading (across steps)
          tabw     \* threads waiting to add to the table
vars == <<D, par, g, th, rd, ww, tabr, tabw>>

Threads == DOMAIN th

RECURSIVE Prefill(_, _, _, _, _)
Prefill(gr, d, p, k, lv) == IF k > NPre THEN gr ELSE Prefill(Insert(gr, d, p, k, lv[k]), d, p, k + 1, lv)

NoSearch == [cand |-> {}, ret |-> {}, vis |-> {}]
Fresh(kind, t, lvl) ==
    [kind |-> kind, k |-> NPre + t, lvl |-> lvl, pc |-> "start", ep |-> 0, l |-> 0, s |-> NoSearch,
     todo |-> <<>>, ans |-> <<>>, had |-> FALSE, seen |-> {}, cnt |-> 0, dl |-> <<>>]

Init ==
    /\ D \in {DistOf(o) : o \in Orders}
    /\ par \in {[M |-> m, efc |-> e, ext |-> FALSE, keep |-> FALSE, maxl |-> 16] : m \in Ms, e \in Efcs}
    /\ \E ks \in Kinds : \E lv \in [1..Len(ks) -> InsLevels] :
          /\ \A t \in 1..Len(ks) : ks[t] # "ins" => lv[t] = CHOOSE x \in InsLevels : TRUE
          /\ th = [t \in 1..Len(ks) |-> Fresh(ks[t], t, lv[t])]
    /\ \E lv \in [1..NPre -> PreLevels] : g = Prefill(EmptyGraph, D, par, 1, lv)
    /\ rd = [k \in 1..MaxKeys |-> {}]
    /\ ww = [k \in 1..MaxKeys |-> {}]
    /\ tabr = {}
    /\ tabw = {}

\* a short read of the lists of point c by thread t is possible (a waiting writer goes first when readers hold the lock)
CanRead(c, t) == (IF rd[c] = {} THEN TRUE ELSE ww[c] \ {t} = {})
\* a short read of the table
CanReadTab(t) == (IF tabr = {} THEN TRUE ELSE tabw \ {t} = {})

Step(t, new) == th' = [th EXCEPT ![t] = new]
R(t) == th[t]

----------------------------------------------------------------------------
(* Insertion.                                                               *)

\* the point gets its place in the table
GenWait(t) == /\ R(t).pc = "start" /\ R(t).kind = "ins" /\ tabr # {} /\ t \notin tabw
              /\ tabw' = tabw \cup {t}
              /\ UNCHANGED <<D, par, g, th, rd, ww, tabr>>
Gen(t) ==
    /\ R(t).pc = "start" /\ R(t).kind = "ins" /\ tabr = {}
    /\ tabw' = tabw \ {t}
    /\ g' = [g EXCEPT !.lev = [k \in Keys(g) \cup {R(t).k} |-> IF k = R(t).k THEN R(t).lvl ELSE g.lev[k]],
                      !.nb  = [k \in Keys(g) \cup {R(t).k} |-> IF k = R(t).k THEN <<>> ELSE g.nb[k]]]
    /\ Step(t, [R(t) EXCEPT !.pc = "ep"])
    /\ UNCHANGED <<D, par, rd, ww, tabr>>

\* copy of the entry point
ReadEp(t) ==
    /\ R(t).pc = "ep" /\ R(t).kind = "ins"
    /\ Step(t, IF g.ep = 0 THEN [R(t) EXCEPT !.pc = "first"]
               ELSE [R(t) EXCEPT !.ep = g.ep, !.pc = "layer", !.l = Max({g.lev[g.ep], R(t).lvl})])
    /\ UNCHANGED <<D, par, g, rd, ww, tabr, tabw>>

\* no entry point was seen: look again with the write lock
First(t) ==
    /\ R(t).pc = "first"
    /\ IF g.ep = 0
       THEN /\ g' = [g EXCEPT !.ep = R(t).k]
            /\ Step(t, [R(t) EXCEPT !.pc = "done"])
       ELSE IF NoRecheck
       THEN /\ g' = IF R(t).lvl > g.lev[g.ep] THEN [g EXCEPT !.ep = R(t).k] ELSE g
            /\ Step(t, [R(t) EXCEPT !.pc = "done"])
       ELSE /\ Step(t, [R(t) EXCEPT !.ep = g.ep, !.pc = "layer", !.l = Max({g.lev[g.ep], R(t).lvl})])
            /\ UNCHANGED g
    /\ UNCHANGED <<D, par, rd, ww, tabr, tabw>>

\* the search in one layer begins (the layer is looked up in the table)
Layer(t) ==
    /\ R(t).pc = "layer" /\ CanReadTab(t)
    /\ LET r == R(t) IN
       Step(t, IF r.l < 0 THEN [r EXCEPT !.pc = "back", !.l = r.lvl]
               ELSE IF LayerEmpty(g, r.l) THEN [r EXCEPT !.l = r.l - 1]
               ELSE [r EXCEPT !.pc = "expand", !.s = [cand |-> {r.ep}, ret |-> {r.ep}, vis |-> {r.ep}]])
    /\ UNCHANGED <<D, par, g, rd, ww, tabr, tabw>>

Width(r) == IF r.l > r.lvl THEN 1 ELSE par.efc
SearchDone(q, ef, s) == IF s.cand = {} THEN TRUE ELSE D[q][Near(D, q, s.cand)] > D[q][Far(D, q, s.ret)]

\* one candidate is taken and its list scanned
Expand1(t) ==
    /\ R(t).pc = "expand"
    /\ ~SearchDone(R(t).k, Width(R(t)), R(t).s)
    /\ LET r == R(t)
           c == Near(D, r.k, r.s.cand)
       IN /\ CanRead(c, t)
          /\ Step(t, [r EXCEPT !.s = FoldLeft(LAMBDA a, e : Visit(D, r.k, Width(r), NoFilter, a, e[1]),
                                              [r.s EXCEPT !.cand = @ \ {c}], NB(g, c, r.l))])
    /\ UNCHANGED <<D, par, g, rd, ww, tabr, tabw>>

\* the points found become the list of the new point in this layer
SetOwn(t) ==
    /\ R(t).pc = "expand"
    /\ SearchDone(R(t).k, Width(R(t)), R(t).s)
    /\ LET r == R(t)
           x == r.k
           near == Near(D, x, r.s.ret)
       IN IF r.l > r.lvl
          THEN /\ g' = [g EXCEPT !.nb[x] = WithLayer(g.nb[x], r.l, NB(g, x, r.l) \o <<<<near, D[x][near]>>>>)]
               /\ Step(t, [r EXCEPT !.ep = IF D[x][near] < D[x][r.ep] THEN near ELSE r.ep,
                                    !.pc = "layer", !.l = r.l - 1, !.s = NoSearch])
          ELSE LET sel == SelectNeighbours(g, D, x, r.s.ret, Cap(par, r.l), FALSE, par.keep, r.l)
                   list == AsList(D, x, sel)
               IN /\ g' = [g EXCEPT !.nb[x] = WithLayer(g.nb[x], r.l, list)]
                  /\ Step(t, [r EXCEPT !.ep = IF list # <<>> THEN list[1][1] ELSE r.ep,
                                       !.pc = "layer", !.l = r.l - 1, !.s = NoSearch])
    /\ rd[R(t).k] = {}
    /\ UNCHANGED <<D, par, rd, ww, tabr, tabw>>

\* the new point is offered to its neighbours: its list of one layer is taken
Back(t) ==
    /\ R(t).pc = "back"
    /\ LET r == R(t) IN
       IF r.l < 0 THEN /\ Step(t, [r EXCEPT !.pc = "check"]) /\ UNCHANGED rd
       ELSE /\ CanRead(r.k, t)
            /\ Step(t, [r EXCEPT !.pc = "offer", !.todo = NB(g, r.k, r.l)])
            /\ rd' = IF HoldOwn THEN [rd EXCEPT ![r.k] = @ \cup {t}] ELSE rd
    /\ UNCHANGED <<D, par, g, ww, tabr, tabw>>

OfferWait(t) ==
    /\ R(t).pc = "offer" /\ R(t).todo # <<>>
    /\ LET q == R(t).todo[1][1] IN
          /\ rd[q] # {} /\ t \notin ww[q]
          /\ ww' = [ww EXCEPT ![q] = @ \cup {t}]
    /\ UNCHANGED <<D, par, g, th, rd, tabr, tabw>>

Offer(t) ==
    /\ R(t).pc = "offer"
    /\ LET r == R(t)
           x == r.k
       IN IF r.todo = <<>>
          THEN /\ Step(t, [r EXCEPT !.pc = "back", !.l = r.l - 1])
               /\ rd' = [rd EXCEPT ![x] = @ \ {t}]
               /\ UNCHANGED <<g, ww>>
          ELSE LET q == r.todo[1][1] IN
               /\ rd[q] = {}
               /\ ww' = [ww EXCEPT ![q] = @ \ {t}]
               /\ g' = IF q = x \/ x \in ListKeys(NB(g, q, r.lvl)) THEN g
                       ELSE [g EXCEPT !.nb[q] = WithLayer(g.nb[q], r.lvl,
                               Spliced(NB(g, q, r.lvl), x, D[q][x], Cap(par, r.lvl)))]
               /\ Step(t, [r EXCEPT !.todo = Tail(r.todo)])
               /\ UNCHANGED rd
    /\ UNCHANGED <<D, par, tabr, tabw>>

CheckEp(t) ==
    /\ R(t).pc = "check"
    /\ g' = IF g.ep = 0 \/ R(t).lvl > g.lev[g.ep] THEN [g EXCEPT !.ep = R(t).k] ELSE g
    /\ Step(t, [R(t) EXCEPT !.pc = "done"])
    /\ UNCHANGED <<D, par, rd, ww, tabr, tabw>>

----------------------------------------------------------------------------
(* Search (k = 2, ef = 2, no filter).                                       *)
QK == MaxKeys + 1
SearchK == 2

SStart(t) ==
    /\ R(t).pc = "start" /\ R(t).kind = "srch"
    /\ Step(t, IF g.ep = 0 THEN [R(t) EXCEPT !.pc = "done", !.had = FALSE, !.seen = Keys(g)]
               ELSE [R(t) EXCEPT !.pc = "pivot", !.ep = g.ep, !.l = g.lev[g.ep], !.had = TRUE])
    /\ UNCHANGED <<D, par, g, rd, ww, tabr, tabw>>

SPivot(t) ==
    /\ R(t).pc = "pivot"
    /\ LET r == R(t) IN
       IF r.l >= 1
       THEN /\ CanRead(r.ep, t)
            /\ Step(t, [r EXCEPT !.ep = Near(D, QK, ListKeys(NB(g, r.ep, r.l)) \cup {r.ep}), !.l = r.l - 1])
       ELSE /\ CanReadTab(t)
            /\ Step(t, [r EXCEPT !.pc = "sexpand", !.l = LowestLayer(g),
                                 !.s = [cand |-> {r.ep}, ret |-> {r.ep}, vis |-> {r.ep}]])
    /\ UNCHANGED <<D, par, g, rd, ww, tabr, tabw>>

SExpand(t) ==
    /\ R(t).pc = "sexpand"
    /\ LET r == R(t) IN
       IF SearchDone(QK, SearchK, r.s)
       THEN Step(t, [r EXCEPT !.pc = "done", !.ans = AsList(D, QK, r.s.ret), !.seen = Keys(g), !.s = NoSearch])
       ELSE LET c == Near(D, QK, r.s.cand) IN
            /\ CanRead(c, t)
            /\ Step(t, [r EXCEPT !.s = FoldLeft(LAMBDA a, e : Visit(D, QK, SearchK, NoFilter, a, e[1]),
                                                [r.s EXCEPT !.cand = @ \ {c}], NB(g, c, r.l))])
    /\ UNCHANGED <<D, par, g, rd, ww, tabr, tabw>>

----------------------------------------------------------------------------
(* Iteration over all points, holding the table.                            *)
IStart(t) ==
    /\ R(t).pc = "start" /\ R(t).kind = "iter" /\ CanReadTab(t)
    /\ tabr' = tabr \cup {t}
    /\ Step(t, [R(t) EXCEPT !.pc = "iter", !.seen = {}])
    /\ UNCHANGED <<D, par, g, rd, ww, tabw>>

INext(t) ==
    /\ R(t).pc = "iter"
    /\ (IF RecRead THEN tabw = {} ELSE TRUE)        \* a second read lock waits behind a waiting writer
    /\ LET rest == Keys(g) \ R(t).seen IN
       IF rest = {} THEN /\ tabr' = tabr \ {t}
                         /\ Step(t, [R(t) EXCEPT !.pc = "done"])
       ELSE /\ Step(t, [R(t) EXCEPT !.seen = @ \cup {CHOOSE x \in rest : \A y \in rest : x <= y}])
            /\ UNCHANGED tabr
    /\ UNCHANGED <<D, par, g, rd, ww, tabw>>

----------------------------------------------------------------------------
(* Dump: the number of points, then each point with its lists (dl), then    *)
(* the entry point (ep), holding the table.                                 *)
DCount(t) ==
    /\ CountFirst /\ R(t).pc = "start" /\ R(t).kind = "dump"
    /\ Step(t, [R(t) EXCEPT !.pc = "lock", !.cnt = Cardinality(Keys(g)), !.had = (g.ep # 0)])
    /\ UNCHANGED <<D, par, g, rd, ww, tabr, tabw>>

DStart(t) ==
    /\ R(t).kind = "dump" /\ R(t).pc = (IF CountFirst THEN "lock" ELSE "start") /\ CanReadTab(t)
    /\ tabr' = tabr \cup {t}
    /\ Step(t, [R(t) EXCEPT !.pc = "dump", !.cnt = IF CountFirst THEN @ ELSE Cardinality(Keys(g)),
                            !.had = IF CountFirst THEN @ ELSE g.ep # 0])
    /\ UNCHANGED <<D, par, g, rd, ww, tabw>>

\* the points by layer; in a layer in the order of their ranks, here in any order
DNext(t) ==
    /\ R(t).pc = "dump"
    /\ LET rest == Keys(g) \ R(t).seen IN
       IF rest = {} THEN /\ tabr' = tabr \ {t}
                         /\ Step(t, [R(t) EXCEPT !.pc = "done", !.ep = g.ep])
       ELSE LET x == CHOOSE x \in rest : \A y \in rest : g.lev[x] < g.lev[y] \/ (g.lev[x] = g.lev[y] /\ x <= y) IN
            /\ CanRead(x, t)
            /\ Step(t, [R(t) EXCEPT !.seen = @ \cup {x}, !.dl = Append(@, <<x, g.nb[x]>>)])
            /\ UNCHANGED tabr
    /\ UNCHANGED <<D, par, g, rd, ww, tabw>>

----------------------------------------------------------------------------
AllDone == \A t \in Threads : R(t).pc = "done"
Finished == AllDone /\ UNCHANGED vars

ThreadStep(t) ==
    \/ GenWait(t) \/ Gen(t) \/ ReadEp(t) \/ First(t) \/ Layer(t) \/ Expand1(t) \/ SetOwn(t)
    \/ Back(t) \/ OfferWait(t) \/ Offer(t) \/ CheckEp(t)
    \/ SStart(t) \/ SPivot(t) \/ SExpand(t) \/ IStart(t) \/ INext(t)
    \/ DCount(t) \/ DStart(t) \/ DNext(t)

Next == (\E t \in Threads : ThreadStep(t)) \/ Finished
Spec == Init /\ [][Next]_vars /\ \A t \in 1..MaxThreads : WF_vars(t \in Threads /\ ThreadStep(t))

----------------------------------------------------------------------------
(* Properties.  Absence of deadlock is checked by TLC (P10).                *)

Inserting == {R(t).k : t \in {u \in Threads : R(u).kind = "ins"}}
WellFormedAlways == WellFormed(g, D, par)                                  \* P02/P08
NothingLost == AllDone => Keys(g) = (1..NPre) \cup Inserting                \* P08
EntryTop == AllDone => EntryAtTop(g)                                        \* P09
Linked == AllDone => Cardinality(Orphans(g)) <= 1                           \* P09
SearchSound == \A t \in Threads : R(t).kind = "srch" /\ R(t).pc = "done" => \* P11
    LET a == R(t).ans IN
      /\ R(t).had => Len(a) >= 1
      /\ Len(a) <= SearchK
      /\ ListKeys(a) \subseteq R(t).seen
      /\ \A j, m \in 1..Len(a) : j < m => a[j][2] < a[m][2] /\ a[j][1] # a[m][1]
      /\ \A j \in 1..Len(a) : a[j][2] = D[QK][a[j][1]]
IterSound == \A t \in Threads : R(t).kind = "iter" /\ R(t).pc = "done" => (1..NPre) \subseteq R(t).seen

\* P22: a dump has the number of points it announces, the points stored before it began, links between its points only
DumpCoherent == \A t \in Threads : R(t).kind = "dump" /\ R(t).pc = "done" =>
    /\ R(t).cnt = Cardinality(R(t).seen)
    /\ (1..NPre) \subseteq R(t).seen
    /\ R(t).had => /\ R(t).ep \in R(t).seen
                   /\ \A k \in 1..NPre : g.lev[k] <= g.lev[R(t).ep]
    /\ \A j \in 1..Len(R(t).dl) : \A l \in 0..(Len(R(t).dl[j][2]) - 1) :
          ListKeys(R(t).dl[j][2][l + 1]) \subseteq R(t).seen

Displaced == \A k \in Keys(g) : \A l \in 0..(Len(g.nb[k]) - 1) :            \* P08
    LET before == ListKeys(NB(g, k, l))
        after == ListKeys(NB(g', k, l))
    IN \A x \in before \ after : Len(NB(g', k, l)) = Cap(par, l) /\ \A y \in after : D[k][y] < D[k][x]
LinksOnlyDisplaced == [][Displaced]_vars
EntryMonotone == [][g.ep # 0 => g'.ep # 0 /\ g'.lev[g'.ep] >= g.lev[g.ep]]_vars   \* P09
Stored == [][\A k \in Keys(g) : k \in Keys(g') /\ g'.lev[k] = g.lev[k]]_vars       \* P08
Terminates == <>AllDone                                                    \* P10
=============================================================================

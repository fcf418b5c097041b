------------------------------ MODULE HnswGraph ------------------------------
(***************************************************************************)
(* The graph of an HNSW index and the algorithms of the index, as pure      *)
(* operators.  Points are positive integers ("keys"), D[x][y] is the        *)
(* distance between x and y (any order preserving integer projection of     *)
(* the real distance; the algorithms only compare distances).               *)
(*                                                                          *)
(* A graph g is a record                                                    *)
(*    lev  key -> level of the point (DOMAIN g.lev: the points stored)      *)
(*    nb   key -> tuple of layers, each a sequence of <<neighbour, dist>>   *)
(*         (layer l is element l+1, trailing empty layers are dropped)      *)
(*    ep   the entry point, 0 if there is none                              *)
(*                                                                          *)
(* Parameters p: M (max_nb_connection), efc (ef_construction),              *)
(*    ext (extend_candidates), keep (keep_pruned), maxl (max_layer)         *)
(*                                                                          *)
(* The operators are deterministic when the distances from a point to       *)
(* others are distinct (NoTies); every user of the exact operators checks   *)
(* or guarantees that.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions

EmptyGraph == [lev |-> <<>>, nb |-> <<>>, ep |-> 0]

Keys(g) == DOMAIN g.lev
MaxLevel(g) == IF Keys(g) = {} THEN 0 ELSE Max({g.lev[k] : k \in Keys(g)})
LayerCount(g, l) == Cardinality({k \in Keys(g) : g.lev[k] = l})
LayerEmpty(g, l) == \A k \in Keys(g) : g.lev[k] # l

\* neighbour list of point k in layer l
NB(g, k, l) == IF l + 1 <= Len(g.nb[k]) THEN g.nb[k][l + 1] ELSE <<>>

RECURSIVE Strip(_)
Strip(s) == IF s # <<>> /\ s[Len(s)] = <<>> THEN Strip(SubSeq(s, 1, Len(s) - 1)) ELSE s

\* replaces layer l of the layered lists n
WithLayer(n, l, list) ==
    Strip([i \in 1..Max({Len(n), l + 1}) |->
              IF i = l + 1 THEN list ELSE IF i <= Len(n) THEN n[i] ELSE <<>>])

Cap(p, l) == IF l = 0 THEN 2 * p.M ELSE p.M

ListKeys(list) == {list[i][1] : i \in 1..Len(list)}

Near(D, q, S) == CHOOSE x \in S : \A y \in S : D[q][x] <= D[q][y]
Far(D, q, S) == CHOOSE x \in S : \A y \in S : D[q][x] >= D[q][y]
Sorted(D, q, S) == SetToSortSeq(S, LAMBDA x, y : D[q][x] < D[q][y])
NoTies(D, q, S) == \A x, y \in S : x # y => D[q][x] # D[q][y]

----------------------------------------------------------------------------
(* Best-first search in one layer (algorithm 2 of Malkov and Yashunin).     *)
(* flt = [on |-> FALSE, acc |-> {}] or [on |-> TRUE, acc |-> accepted keys] *)
(* The start point is kept whether accepted or not, until a first accepted  *)
(* point replaces it.                                                       *)

NoFilter == [on |-> FALSE, acc |-> {}]

Visit(D, q, ef, flt, s, e) ==
    IF e \in s.vis THEN s
    ELSE LET f == Far(D, q, s.ret)
             s1 == [s EXCEPT !.vis = @ \cup {e}]
         IN IF D[q][e] < D[q][f] \/ Cardinality(s.ret) < ef
            THEN LET kept == IF ~flt.on THEN s.ret \cup {e}
                             ELSE IF e \notin flt.acc THEN s.ret
                             ELSE IF Cardinality(s.ret) = 1 /\ s.ret \cap flt.acc = {}
                                  THEN {e} ELSE s.ret \cup {e}
                     ret == IF Cardinality(kept) > ef THEN kept \ {Far(D, q, kept)} ELSE kept
                 IN [s1 EXCEPT !.cand = @ \cup {e}, !.ret = ret]
            ELSE s1

RECURSIVE Expand(_, _, _, _, _, _, _)
Expand(g, D, q, ef, l, flt, s) ==
    IF s.cand = {} THEN s.ret
    ELSE LET c == Near(D, q, s.cand)
             f == Far(D, q, s.ret)
         IN IF D[q][c] > D[q][f] /\ (~flt.on \/ Cardinality(s.ret) >= ef) THEN s.ret
            ELSE Expand(g, D, q, ef, l, flt,
                    FoldLeft(LAMBDA a, e : Visit(D, q, ef, flt, a, e[1]),
                             [s EXCEPT !.cand = @ \ {c}], NB(g, c, l)))

\* set of the points found
SearchLayer(g, D, q, start, ef, l, flt) ==
    IF LayerEmpty(g, l) THEN {}
    ELSE Expand(g, D, q, ef, l, flt, [cand |-> {start}, ret |-> {start}, vis |-> {start}])

----------------------------------------------------------------------------
(* Neighbour selection (algorithm 4).                                       *)

RECURSIVE Heuristic(_, _, _, _, _, _)
\* cands: remaining candidates, sel: selected (set), disc: discarded
Heuristic(D, q, cands, cap, sel, disc) ==
    IF cands = {} \/ Cardinality(sel) >= cap THEN [sel |-> sel, disc |-> disc]
    ELSE LET e == Near(D, q, cands)
         IN IF \E d \in sel : D[e][d] <= D[q][e]
            THEN Heuristic(D, q, cands \ {e}, cap, sel, disc \cup {e})
            ELSE Heuristic(D, q, cands \ {e}, cap, sel \cup {e}, disc)

FirstN(D, q, S, n) == LET s == Sorted(D, q, S) IN {s[i] : i \in 1..Min({n, Len(s)})}

SelectNeighbours(g, D, q, cands, cap, ext, keep, l) ==
    IF Cardinality(cands) <= cap /\ ~ext THEN cands
    ELSE LET c2 == IF Cardinality(cands) <= cap /\ ext
                   THEN cands \cup UNION {ListKeys(NB(g, c, l)) : c \in cands}
                   ELSE cands
             h == Heuristic(D, q, c2, cap, {}, {})
         IN IF keep THEN h.sel \cup FirstN(D, q, h.disc, cap - Cardinality(h.sel)) ELSE h.sel

AsList(D, q, S) == LET s == Sorted(D, q, S) IN [i \in 1..Len(s) |-> <<s[i], D[q][s[i]]>>]

----------------------------------------------------------------------------
(* Insertion (algorithm 1): links of the new point x of level lvl.          *)

RECURSIVE Descend(_, _, _, _, _, _, _)
\* layers above the level of x: acc = [ep, nb]
Descend(g, D, p, x, l, lvl, acc) ==
    IF l <= lvl THEN acc
    ELSE LET r == SearchLayer(g, D, x, acc.ep, 1, l, NoFilter)
         IN IF r = {} THEN Descend(g, D, p, x, l - 1, lvl, acc)
            ELSE LET y == Near(D, x, r)
                 IN Descend(g, D, p, x, l - 1, lvl,
                       [ep |-> IF D[x][y] < D[x][acc.ep] THEN y ELSE acc.ep,
                        nb |-> WithLayer(acc.nb, l, <<<<y, D[x][y]>>>>)])

RECURSIVE Connect(_, _, _, _, _, _)
Connect(g, D, p, x, l, acc) ==
    IF l < 0 THEN acc
    ELSE LET r == SearchLayer(g, D, x, acc.ep, p.efc, l, NoFilter)
         IN IF r = {} THEN Connect(g, D, p, x, l - 1, acc)
            ELSE LET sel == SelectNeighbours(g, D, x, r, Cap(p, l), p.ext /\ l = 0, p.keep, l)
                     list == AsList(D, x, sel)
                 IN Connect(g, D, p, x, l - 1,
                       [ep |-> IF list # <<>> THEN list[1][1] ELSE acc.ep,
                        nb |-> WithLayer(acc.nb, l, list)])

\* list with <<x, d>> added in order, and cut to cap
Spliced(list, x, d, cap) ==
    LET smaller == SelectSeq(list, LAMBDA e : e[2] < d)
        larger == SelectSeq(list, LAMBDA e : e[2] >= d)
        all == smaller \o <<<<x, d>>>> \o larger
    IN IF Len(all) > cap THEN SubSeq(all, 1, cap) ELSE all

\* the new point is offered to each of its neighbours in layers 0..lvl, in the list of layer lvl
BackTargets(n, lvl) == UNION {ListKeys(n[l + 1]) : l \in 0..Min({lvl, Len(n) - 1})}

Insert(g, D, p, x, lvl) ==
    LET lev2 == [k \in Keys(g) \cup {x} |-> IF k = x THEN lvl ELSE g.lev[k]]
        g2 == [lev |-> lev2, nb |-> [k \in Keys(g) \cup {x} |-> IF k = x THEN <<>> ELSE g.nb[k]], ep |-> g.ep]
    IN IF g.ep = 0 THEN [g2 EXCEPT !.ep = x]
       ELSE LET a == Descend(g2, D, p, x, g.lev[g.ep], lvl, [ep |-> g.ep, nb |-> <<>>])
                n == Connect(g2, D, p, x, lvl, a).nb
                back == BackTargets(n, lvl) \ {x}
            IN [lev |-> lev2,
                nb  |-> [k \in Keys(g2) |->
                           IF k = x THEN n
                           ELSE IF k \in back /\ x \notin ListKeys(NB(g2, k, lvl))
                                THEN WithLayer(g2.nb[k], lvl, Spliced(NB(g2, k, lvl), x, D[k][x], Cap(p, lvl)))
                                ELSE g2.nb[k]],
                ep  |-> IF lvl > g.lev[g.ep] THEN x ELSE g.ep]

----------------------------------------------------------------------------
(* Search.                                                                  *)

\* one greedy pass over the list of the pivot in each layer, from the top
RECURSIVE Pivot(_, _, _, _, _)
Pivot(g, D, q, l, pv) ==
    IF l < 1 THEN pv
    ELSE LET c == ListKeys(NB(g, pv, l)) \cup {pv}
         IN Pivot(g, D, q, l - 1, Near(D, q, c))

LowestLayer(g) == Min({g.lev[k] : k \in Keys(g)})

StartOf(g, D, q) == Pivot(g, D, q, g.lev[g.ep], g.ep)

Search(g, D, q, k, ef, flt) ==
    IF g.ep = 0 THEN <<>>
    ELSE LET r0 == SearchLayer(g, D, q, StartOf(g, D, q), Max({k, ef}), LowestLayer(g), flt)
             r  == IF flt.on THEN r0 \cap flt.acc ELSE r0
             s  == AsList(D, q, r)
         IN SubSeq(s, 1, Min({k, Len(s)}))

----------------------------------------------------------------------------
(* What the algorithms must guarantee, independently of how they work.      *)

\* points reachable from s through the lists of layer l
RECURSIVE ReachFrom(_, _, _, _)
ReachFrom(g, l, done, front) ==
    IF front = {} THEN done
    ELSE LET nxt == UNION {ListKeys(NB(g, k, l)) : k \in front}
         IN ReachFrom(g, l, done \cup front, nxt \ (done \cup front))
Reach(g, s, l) == ReachFrom(g, l, {}, {s})

\* one neighbour list of point k in layer l
ListOK(g, D, p, k, l) ==
    LET list == NB(g, k, l) IN
    /\ Len(list) <= Cap(p, l)
    /\ \A i \in 1..Len(list) :
          /\ list[i][1] \in Keys(g) \ {k}
          /\ list[i][2] = D[k][list[i][1]]
    /\ \A i \in 1..(Len(list) - 1) : list[i][2] <= list[i + 1][2]
    /\ Cardinality(ListKeys(list)) = Len(list)

WellFormed(g, D, p) == \A k \in Keys(g) : Len(g.nb[k]) <= 16 /\ \A l \in 0..(Len(g.nb[k]) - 1) : ListOK(g, D, p, k, l)

EntryAtTop(g) == IF Keys(g) = {} THEN g.ep = 0 ELSE g.ep \in Keys(g) /\ g.lev[g.ep] = MaxLevel(g)

\* points without a neighbour in their own layer
Orphans(g) == {k \in Keys(g) : NB(g, k, g.lev[k]) = <<>>}

=============================================================================

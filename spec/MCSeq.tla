------------------------------- MODULE MCSeq -------------------------------
(***************************************************************************)
(* The sequential index as a state machine, explored exhaustively: every    *)
(* order of the distances between N points (and a query), every sequence    *)
(* of levels.  N points are inserted in the order 1..N (all relative        *)
(* positions are covered by the choice of the distances), key N+1 is a      *)
(* query.                                                                   *)
(***************************************************************************)
EXTENDS HnswGraph, TLC, Json, IOUtils

CONSTANTS N,        \* number of points
          MaxL,     \* levels 0..MaxL
          Ms, Efcs, \* sets of values of the parameters
          Flags,    \* set of <<ext, keep>>
          NPerm,    \* number of distance orders: 0 for all
          Seed,
          Emit      \* print complete behaviours for the replay on the code, one out of Emit (0: none)

ASSUME N \in 2..6

\* pairs of points {i < j}, j = N + 1 is the query
Pairs == {<<i, j>> \in (1..N + 1) \X (1..N + 1) : i < j}
NP == Cardinality(Pairs)
PairIdx == [pr \in Pairs |-> Cardinality({x \in Pairs : x[1] < pr[1] \/ (x[1] = pr[1] /\ x[2] < pr[2])}) + 1]

\* distances as a function of an order (permutation of 1..NP)
DistOf(order) == [x \in 1..N + 1 |-> [y \in 1..N + 1 |->
                    IF x = y THEN 0 ELSE IF x < y THEN order[PairIdx[<<x, y>>]] ELSE order[PairIdx[<<y, x>>]]]]

\* pseudo random permutations when all of them are too many
LCG(s) == (s * 1103 + 12345) % 65521
RECURSIVE Shuffle(_, _, _)
Shuffle(seq, s, i) ==
    IF i <= 1 THEN seq
    ELSE LET s2 == LCG(s)
             j == (s2 % i) + 1
         IN Shuffle([seq EXCEPT ![i] = seq[j], ![j] = seq[i]], s2, i - 1)
Id == [i \in 1..NP |-> i]

FlagsSome == {<<FALSE, FALSE>>, <<TRUE, TRUE>>, <<FALSE, TRUE>>}
FlagsNone == {<<FALSE, FALSE>>}

VARIABLES D, par, g, n     \* D: the distances, chosen initially
vars == <<D, par, g, n>>

Orders == IF NPerm = 0 THEN Permutations(1..NP)
          ELSE {Shuffle(Id, LCG(LCG(Seed * 7919 + i * 104 + 1)), NP) : i \in 1..NPerm}

Params == {[M |-> m, efc |-> e, ext |-> f[1], keep |-> f[2], maxl |-> 16] : m \in Ms, e \in Efcs, f \in Flags}

Init == /\ D \in {DistOf(o) : o \in Orders}
        /\ par \in Params
        /\ g = EmptyGraph
        /\ n = 0

InsertNext(lvl) ==
    /\ n < N
    /\ n' = n + 1
    /\ g' = Insert(g, D, par, n + 1, lvl)
    /\ UNCHANGED <<D, par>>

Next == \E lvl \in 0..MaxL : InsertNext(lvl)

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
TypeOK == Keys(g) = 1..n
P02_WellFormed == WellFormed(g, D, par)
P09_EntryAtTop == EntryAtTop(g)
P09_Linked == Orphans(g) \subseteq {1}

q == N + 1
\* C04/C05: soundness and completeness of searches on every reachable graph
P04_Sound == \A k \in 1..n + 1, ef \in 1..n + 1 :
    LET a == Search(g, D, q, k, ef, NoFilter) IN
       /\ Len(a) <= k
       /\ (n > 0) => Len(a) >= 1
       /\ \A i \in 1..Len(a) : a[i][1] \in Keys(g) /\ a[i][2] = D[q][a[i][1]]
       /\ \A i, j \in 1..Len(a) : i < j => a[i][2] < a[j][2]
P05_Complete == n > 0 => \A k \in 1..n :
    LET R == Reach(g, StartOf(g, D, q), LowestLayer(g)) IN
       Search(g, D, q, k, n, NoFilter) = SubSeq(AsList(D, q, R), 1, Min({k, Cardinality(R)}))
\* closure: whatever ef, the neighbours of the points kept are kept, or farther than the worst kept
P05_Closed == n > 0 => \A ef \in 1..n :
    LET r == SearchLayer(g, D, q, StartOf(g, D, q), ef, LowestLayer(g), NoFilter) IN
       \A x \in r : \A y \in ListKeys(NB(g, x, LowestLayer(g))) :
           y \in r \/ (Cardinality(r) >= ef /\ \A z \in r : D[q][z] < D[q][y])
P06_Filter == n > 0 => \A acc \in SUBSET Keys(g) :
    LET flt == [on |-> TRUE, acc |-> acc]
        R == Reach(g, StartOf(g, D, q), LowestLayer(g)) \cap acc
    IN /\ Search(g, D, q, n, n + 1, flt) = AsList(D, q, R)
       /\ \A ef \in 1..n : ListKeys(Search(g, D, q, 1, ef, flt)) \subseteq acc
       /\ \A k \in 1..n, ef \in 1..n :
             acc = Keys(g) => Search(g, D, q, k, ef, flt) = Search(g, D, q, k, ef, NoFilter)

\* an insertion never loses a link except by displacement by the new, nearer, point
LinksOnlyDisplaced ==
    \A k \in Keys(g) : \A l \in 0..(Len(g.nb[k]) - 1) :
        LET before == ListKeys(NB(g, k, l))
            after == ListKeys(NB(g', k, l))
        IN \A x \in before \ after :
              /\ Len(NB(g', k, l)) = Cap(par, l)
              /\ \A y \in after : D[k][y] < D[k][x]
P08_Displaced == [][LinksOnlyDisplaced]_vars
P09_Monotone == [][g.ep # 0 => g'.ep # 0 /\ g'.lev[g'.ep] >= g.lev[g.ep]]_vars

\* behaviours for the replay on the code
Levels == [i \in 1..n |-> g.lev[i]]
SumTo(s) == FoldLeft(LAMBDA a, b : (a * 31 + b) % 9973, 7, s)
PrintBehaviour ==
    (Emit > 0 /\ n = N /\ SumTo(D[1] \o D[2] \o D[3] \o Levels \o <<par.M, par.efc, Seed>>) % Emit = 0)
      => PrintT(<<"BEHAVIOUR", ToJson([D |-> D, par |-> par, lev |-> Levels, nb |-> [i \in 1..n |-> g.nb[i]],
                  ep |-> g.ep,
                  ans |-> [k \in 1..N |-> Search(g, D, q, k, k, NoFilter)],
                  fans |-> [m \in 1..2^N |-> LET acc == {k \in 1..N : ((m - 1) \div 2^(k - 1)) % 2 = 1}
                                            IN Search(g, D, q, N, N + 1, [on |-> TRUE, acc |-> acc])]])>>)
=============================================================================

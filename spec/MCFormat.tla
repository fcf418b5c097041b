------------------------------- MODULE MCFormat -------------------------------
(* Every index is read back from its files, in each version; no proper prefix of either file is read as an index; the marks and
   the ends of records are where the specification says; a changed mark is refused. *)
EXTENDS HnswFormat, TLC
CONSTANTS MaxPts, Every

Ids == << <<1,0,0,0,0,0,0,0>>, <<255,255,255,255,255,255,255,255>>, <<7,0,0,0,0,0,0,128>> >>
Datas == {<<>>, <<5>>, <<0, 0, 127, 166>>}

\* shapes: number of points of each of the NL layers
Shapes == {s \in [1..NL -> 0..MaxPts] : LET t == Sum(NL, LAMBDA l : s[l]) IN t >= 1 /\ t <= MaxPts}
\* the j-th point of a shape: layer and rank
LayersOf(s, data, lists) ==
    [l \in 1..NL |-> [r \in 1..s[l] |->
        LET j == Sum(l - 1, LAMBDA k : s[k]) + r IN
        [id |-> Ids[j], data |-> data[j], nb |-> lists[j]]]]
NbTo(j, s) == LET l == CHOOSE l \in 1..NL : Sum(l - 1, LAMBDA k : s[k]) < j /\ j <= Sum(l, LAMBDA k : s[k])
              IN [id |-> Ids[j], l |-> l - 1, r |-> j - 1 - Sum(l - 1, LAMBDA k : s[k]), d |-> <<1, 2, 128, 63>>]
\* what the lists of a point may be: in each layer, nothing or one other point
Lists(s, j) == [1..NL -> {<<>>} \cup {<<NbTo(k, s)>> : k \in (1..Sum(NL, LAMBDA l : s[l])) \ {j}}]

VARIABLES ix, v, done
vars == <<ix, v, done>>

Init == /\ done = FALSE
        /\ v \in {2, 3, 4}
        /\ \E s \in Shapes :
             LET n == Sum(NL, LAMBDA l : s[l]) IN
             \E data \in [1..n -> Datas] :
             \E lists \in {f \in [1..n -> UNION {Lists(s, j) : j \in 1..n}] : \A j \in 1..n : f[j] \in Lists(s, j)} :
             \E e \in 1..n :
               LET p == NbTo(e, s) IN
               ix = [M |-> 8, scale |-> <<0,1,2,3,4,5,6,7>>, efc |-> <<9,0,0,0,0,0,0,1>>, nbp |-> n, dim |-> Len(data[e]), dist |-> <<68>>,
                     tname |-> <<117, 56>>, layers |-> LayersOf(s, data, lists), ep |-> [id |-> p.id, l |-> p.l, r |-> p.r], esize |-> 1]

Next == ~done /\ done' = TRUE /\ UNCHANGED <<ix, v>>
Spec == Init /\ [][Next]_vars

G == GraphBytes(ix, v)
D == DataBytes(ix, v)
Strip(r) == [f \in DOMAIN r \ {"esize"} |-> r[f]]
Pad(p) == [p EXCEPT !.nb = [k \in 1..NL |-> ListOf(p, k)]]
Expected == [Strip(ix) EXCEPT !.scale = IF v >= 4 THEN @ ELSE <<>>]

ReadsBack == LET x == Read(G, D) IN x.ok /\ x.ver = v /\ x.ix = Expected
LengthsOK == /\ Len(G) = LayerAt(ix, v, Len(ix.layers) + 1) + 13
             /\ \A o \in Boundaries(ix, v) : o <= Len(D)
             /\ Len(D) \in Boundaries(ix, v)
MarksOK == /\ \A o \in GraphMarks(ix, v) : SubSeq(G, o + 1, o + 4) \in {MarkDescr(v), MarkLayer, MarkPoint}
           /\ \A o \in DataMarks(ix, v) : SubSeq(D, o + 1, o + 4) = MarkData
\* (a sample of the lengths: every Every-th, and the last ones)
Cuts(n) == {k \in 0..(n - 1) : k % Every = 0 \/ k > n - 3}
NoPrefixReads == /\ \A k \in Cuts(Len(G)) : ~Read(SubSeq(G, 1, k), D).ok
                 /\ \A k \in Cuts(Len(D)) : ~Read(G, SubSeq(D, 1, k)).ok
BadMarkRefused == /\ \A o \in GraphMarks(ix, v) : ~Read([G EXCEPT ![o + 1] = (@ + 1) % 256], D).ok
                  /\ \A o \in DataMarks(ix, v) : ~Read(G, [D EXCEPT ![o + 2] = 77]).ok
==============================================================================

------------------------------ MODULE TracePar ------------------------------
(***************************************************************************)
(* Recorded parallel searches (P07): one answer per request, in the order   *)
(* of the requests, the one the sequential search gives (recorded as well,  *)
(* and equal to the answer of the specification when distances are          *)
(* distinct), whatever the threads did; the index does not change.          *)
(***************************************************************************)
EXTENDS HnswGraph, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
NT == Len(Traces)
VARIABLES tr, i, g, err
vars == <<tr, i, g, err>>
T == Traces[tr]

TieFree == [t \in 1..NT |-> \A x \in 1..Len(Traces[t].D) :
               Cardinality({Traces[t].D[x][y] : y \in 1..Len(Traces[t].D)}) = Len(Traces[t].D)]
Pairs(layers) == [l \in 1..Len(layers) |-> [j \in 1..Len(layers[l]) |-> <<layers[l][j][1], layers[l][j][2]>>]]
AnsPairs(a) == [j \in 1..Len(a) |-> <<a[j][1], a[j][2]>>]

\* the state is given once, all points in `add' and all lists in `chg'; the entry point is the first key at the highest level
Load(s) ==
    LET ks == {s.add[j][1] : j \in 1..Len(s.add)}
        lv == [k \in ks |-> s.add[CHOOSE j \in 1..Len(s.add) : s.add[j][1] = k][2]]
        ch == {s.chg[j][1] : j \in 1..Len(s.chg)}
        top == {k \in ks : \A m \in ks : lv[m] <= lv[k]}
    IN [lev |-> lv,
        nb |-> [k \in ks |-> IF k \in ch THEN Pairs(s.chg[CHOOSE j \in 1..Len(s.chg) : s.chg[j][1] = k][2]) ELSE <<>>],
        ep |-> IF ks = {} THEN 0 ELSE Min(top)]

P07(t, s, gr, exact) ==
    IF s.op = "panic" THEN "panic: " \o s.msg
    ELSE IF s.op # "psrch" THEN ""
    ELSE IF Len(s.par) # Len(s.qs) THEN "not one answer per request"
    ELSE IF s.par # s.seq THEN "another answer than the sequential search"
    ELSE IF exact /\ \E j \in 1..Min({Len(s.qs), 12}) : AnsPairs(s.par[j]) # Search(gr, t.D, s.qs[j], s.k, s.ef, NoFilter)
         THEN "not the answer for the request at this rank"
    ELSE IF Len(s.chg) + Len(s.add) + Len(s.del) > 0 THEN "the search changed the index"
    ELSE ""

Init == tr \in 1..NT /\ i = 0 /\ g = EmptyGraph /\ err = ""
Next == /\ err = ""
        /\ i < Len(T.steps)
        /\ LET s == T.steps[i + 1] IN
              /\ g' = IF s.op = "init" THEN Load(s) ELSE g
              /\ err' = P07(T, s, g, TieFree[tr])
        /\ i' = i + 1
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
Conforms == err = ""
\* what is printed of a behaviour which does not conform
Shown == [tr |-> tr, i |-> i, err |-> err]
TotalSteps == FoldLeft(LAMBDA a, t : a + Len(t.steps) + 1, 0, Traces)
AllRead == TLCGet("stats").distinct = TotalSteps
=============================================================================

------------------------------- MODULE HnswDrop -------------------------------
(***************************************************************************)
(* What keeps the points of an index allocated, and the drop of the index.  *)
(*                                                                          *)
(* A point is kept by its place in the table of its layer, by the entry     *)
(* point, by each link of an allocated point to it and by the user.  It is  *)
(* freed, with its links, when nothing keeps it.  Links form any graph, so  *)
(* that freeing the tables only would leave the cycles: the drop clears     *)
(* first the links of the entry point, then layer by layer up to the level  *)
(* of the entry point the links of the points (in any order: in parallel)   *)
(* and the table of the layer.                                              *)
(*                                                                          *)
(* SkipTop: the layer of the entry point is left out; NoClear: links are    *)
(* not cleared: errors that TLC must show                    *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS N, MaxL, SkipTop, NoClear

Pts == 1..N
VARIABLES lev, links, table, entry, held, cur, phase
vars == <<lev, links, table, entry, held, cur, phase>>

\* reference counting frees less than what is not reached: a cycle keeps itself.  A point is freed if no link of an allocated point leads to it
RECURSIVE Free(_, _, _)
Free(alive, roots, lk) ==
    LET f == {p \in alive : p \notin roots /\ \A q \in alive : p \notin lk[q]} IN
    IF f = {} THEN alive ELSE Free(alive \ f, roots, lk)
Roots == table \cup entry \cup held
Alive == Free(Pts, Roots, links)

TopLevel == IF entry = {} THEN 0 ELSE lev[CHOOSE p \in entry : TRUE]

Init == /\ lev \in [Pts -> 0..MaxL]
        /\ links \in [Pts -> SUBSET Pts] /\ \A p \in Pts : p \notin links[p]
        /\ table = Pts
        /\ \E p \in Pts : (\A q \in Pts : lev[q] <= lev[p]) /\ entry = {p}
        /\ held \in SUBSET Pts /\ Cardinality(held) <= 1
        /\ cur = 0 /\ phase = "open"

Clear(S) == IF NoClear THEN links ELSE [p \in Pts |-> IF p \in S THEN {} ELSE links[p]]

ClearEntry == /\ phase = "open" /\ phase' = "layers" /\ cur' = 0
              /\ links' = Clear(entry)
              /\ UNCHANGED <<lev, table, entry, held>>
\* one point of the current layer at a time, in any order
ClearPoint == /\ phase = "layers"
              /\ \E p \in table : lev[p] = cur /\ links[p] # {} /\ ~NoClear /\ links' = Clear({p})
              /\ UNCHANGED <<lev, table, entry, held, cur, phase>>
EndLayer == /\ phase = "layers"
            /\ NoClear \/ \A p \in table : lev[p] = cur => links[p] = {}
            /\ table' = {p \in table : lev[p] # cur}
            /\ IF cur + (IF SkipTop THEN 1 ELSE 0) >= TopLevel THEN phase' = "fields" /\ cur' = cur ELSE phase' = phase /\ cur' = cur + 1
            /\ UNCHANGED <<lev, links, entry, held>>
\* the fields of the index are dropped
Fields == /\ phase = "fields" /\ phase' = "dropped"
          /\ table' = {} /\ entry' = {}
          /\ UNCHANGED <<lev, links, held, cur>>
\* the user may take a point until the drop begins and releases it whenever
Release == /\ held # {} /\ phase = "dropped" /\ held' = {}
           /\ UNCHANGED <<lev, links, table, entry, cur, phase>>
Next == ClearEntry \/ ClearPoint \/ EndLayer \/ Fields \/ Release
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* after the drop, what remains is what the user holds
NothingKept == phase = "dropped" => Alive = held
\* a point is not freed while it is in the index or held
NotTooEarly == Roots \subseteq Alive
Ends == <>(phase = "dropped")
==============================================================================

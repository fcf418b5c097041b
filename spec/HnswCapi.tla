------------------------------- MODULE HnswCapi -------------------------------
(***************************************************************************)
(* The C interface: handles on indexes and dumps in the current directory.  *)
(*                                                                          *)
(*   hs     sequence of handles [pts, open]: pts the set of <<id, data>>    *)
(*          given to the insert functions (or found in the dump loaded)     *)
(*   dumps  base -> set of <<id, data>>                                     *)
(*                                                                          *)
(* Each function of the C interface is an action with the answer that the   *)
(* same call of the Rust interface gives.  The functions given a name that  *)
(* stands for nothing answer null and change nothing.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

InitHandle == [pts |-> {}, open |-> TRUE]
Inserted(h, new) == [h EXCEPT !.pts = @ \cup new]
Dumped(dumps, base, h) == [b \in DOMAIN dumps \cup {base} |-> IF b = base THEN h.pts ELSE dumps[b]]
FromDump(dumps, base) == [pts |-> dumps[base], open |-> TRUE]

IdsOf(h) == {p[1] : p \in h.pts}

\* an answer to a search for k points: sequence of <<id, distance>>
AnswerOK(h, k, a) == /\ Len(a) <= k
                     /\ LET ids == {a[j][1] : j \in 1..Len(a)} IN ids \subseteq IdsOf(h) /\ Cardinality(ids) = Len(a)
==============================================================================

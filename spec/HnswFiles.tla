------------------------------ MODULE HnswFiles ------------------------------
(***************************************************************************)
(* Indexes, and the dumps of a few directories.                             *)
(*                                                                          *)
(*   idx    sequence of indexes [c, prot, maps, ep]                         *)
(*             c     the content of the index (any value)                   *)
(*             prot  the index may be mapping files: its dumps overwrite    *)
(*                   nothing                                                *)
(*             maps  <<directory, base>> of the dump it maps, or <<>>       *)
(*             ep    its entry point if it is known, else ""                *)
(*   dumps  <<directory, base>> -> [c, ep]: what is in the pair of files    *)
(*                                                                          *)
(* A name is taken if its data file exists; that can be the case without    *)
(* a complete dump of that name: taken is a set of <<directory, base>>.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

NewIndex(c, ep) == [c |-> c, prot |-> FALSE, maps |-> <<>>, ep |-> ep]

\* the names under which a dump of index x asked for as n may be written
DumpNameOK(x, n, ret, taken) ==
    IF x.prot /\ n \in taken THEN ret # n /\ ret \notin taken ELSE ret = n

AfterDump(dumps, x, ret, ep) ==
    [y \in DOMAIN dumps \cup {ret} |-> IF y = ret THEN [c |-> x.c, ep |-> ep] ELSE dumps[y]]

\* an index loaded from dump n; forms: see the harness (1: load_hnsw_with_dist without mapping)
Loaded(dumps, n, prot, maps) == [c |-> dumps[n].c, prot |-> prot, maps |-> IF maps THEN n ELSE <<>>, ep |-> dumps[n].ep]

Remove(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
==============================================================================

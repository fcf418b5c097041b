------------------------------- MODULE MCFiles -------------------------------
(* Histories of builds, dumps, reloads and drops: nothing that a live index maps is overwritten by the dump of a reloaded index,
   and a dump gives back what was dumped under the returned name.  Careless = TRUE: dumps always use the requested name.
   ByName = TRUE: only the index that was loaded from that very name is careful. *)
EXTENDS HnswFiles, TLC
CONSTANTS Bases, Contents, MaxIdx, Careless, ByName

VARIABLES idx, dumps, taken, last
vars == <<idx, dumps, taken, last>>

Names == {<<1, b>> : b \in Bases}

Init == idx = <<>> /\ dumps = <<>> /\ taken = {} /\ last = [op |-> "init"]

Build == /\ Len(idx) < MaxIdx
         /\ \E c \in Contents : idx' = Append(idx, NewIndex(c, "e"))
         /\ last' = [op |-> "build"] /\ UNCHANGED <<dumps, taken>>

Insert == /\ \E k \in 1..Len(idx) : \E c \in Contents : c > idx[k].c /\ idx' = [idx EXCEPT ![k].c = c]
          /\ last' = [op |-> "ins"] /\ UNCHANGED <<dumps, taken>>

Careful(x, n) == IF Careless THEN FALSE ELSE IF ByName THEN x.maps = n ELSE x.prot

Dump == \E k \in 1..Len(idx) : \E n \in Names : \E ret \in Names :
          /\ DumpNameOK([idx[k] EXCEPT !.prot = Careful(idx[k], n)], n, ret, taken)
          \* the user does not replace, with an index built in memory, files that are mapped
          /\ idx[k].prot \/ \A j \in 1..Len(idx) : idx[j].maps # n
          /\ dumps' = AfterDump(dumps, idx[k], ret, "e")
          /\ taken' = taken \cup {ret}
          /\ last' = [op |-> "dump", k |-> k, n |-> n, ret |-> ret]
          /\ UNCHANGED idx

\* an interrupted dump: the name is taken, its files are no dump
Crash == \E n \in Names \ taken :
          /\ taken' = taken \cup {n}
          /\ last' = [op |-> "crash"] /\ UNCHANGED <<idx, dumps>>

Load == /\ Len(idx) < MaxIdx
        /\ \E n \in DOMAIN dumps : \E m \in BOOLEAN :
             /\ idx' = Append(idx, Loaded(dumps, n, TRUE, m))
             /\ last' = [op |-> "load", n |-> n]
        /\ UNCHANGED <<dumps, taken>>

Drop == /\ \E k \in 1..Len(idx) : idx' = Remove(idx, k)
        /\ last' = [op |-> "drop"] /\ UNCHANGED <<dumps, taken>>

Next == Build \/ Insert \/ Dump \/ Crash \/ Load \/ Drop
Spec == Init /\ [][Next]_vars

\* a dump never changes the files an index maps
MappedKept == [][\A k \in 1..Len(idx) : last'.op = "dump" /\ idx[k].maps # <<>> /\ idx[k].maps \in DOMAIN dumps
                      => dumps'[idx[k].maps] = dumps[idx[k].maps]]_vars
\* the dump of a reloaded index changes no existing file
NothingOverwritten == [][last'.op = "dump" /\ idx[last'.k].prot
                            => /\ \A n \in DOMAIN dumps : dumps'[n] = dumps[n]
                               /\ last'.ret \notin taken]_vars
ReturnedName == [][last'.op = "dump" => dumps'[last'.ret].c = idx[last'.k].c]_vars
MemoryName == [][last'.op = "dump" /\ ~idx[last'.k].prot => last'.ret = last'.n]_vars
DumpsTaken == DOMAIN dumps \subseteq taken
==============================================================================

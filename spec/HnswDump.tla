------------------------------ MODULE HnswDump ------------------------------
(***************************************************************************)
(* A dump as the file system sees it: two files opened (and truncated) one  *)
(* after the other, filled through buffers that may be written out, in part *)
(* or whole, at any moment, then flushed, data first.  The process may die  *)
(* at any moment and any write may fail, in which case the dump reports an  *)
(* error.  A file is [of |-> "old"/"new"/"none", n |-> bytes].              *)
(* A pair of files loads iff both are complete and of the same dump.        *)
(*                                                                          *)
(* Defects that can be restored: LoseFlush (the error of the last flush of  *)
(* the data is not reported), TrustGraph (a loader that does not look at    *)
(* the end of the data), GraphFirst (the graph is flushed before the data). *)
(***************************************************************************)
EXTENDS Integers, TLC
CONSTANTS GLen, DLen, LoseFlush, TrustGraph

VARIABLES g, d, gb, db, pc, left, res
vars == <<g, d, gb, db, pc, left, res>>

None == [of |-> "none", n |-> 0]
Old(n) == [of |-> "old", n |-> n]

\* left: bytes the disk still takes, -1 when it is large enough
Init == /\ \E o \in BOOLEAN : g = (IF o THEN Old(GLen) ELSE None) /\ d = (IF o THEN Old(DLen) ELSE None)
        /\ gb = 0 /\ db = 0 /\ pc = "openg" /\ res = "none"
        /\ left \in -1..(GLen + DLen)

OpenG == /\ pc = "openg" /\ g' = [of |-> "new", n |-> 0] /\ pc' = "opend" /\ UNCHANGED <<d, gb, db, left, res>>
OpenD == /\ pc = "opend" /\ d' = [of |-> "new", n |-> 0] /\ pc' = "fill" /\ UNCHANGED <<g, gb, db, left, res>>
\* gb, db: bytes given to the buffers so far
Fill == /\ pc = "fill"
        /\ \/ gb < GLen /\ gb' = gb + 1 /\ UNCHANGED db
           \/ db < DLen /\ db' = db + 1 /\ UNCHANGED gb
        /\ UNCHANGED <<g, d, pc, left, res>>
Filled == pc = "fill" /\ gb = GLen /\ db = DLen /\ pc' = "flushd" /\ UNCHANGED <<g, d, gb, db, left, res>>

Full == left = 0
Room(k) == left = -1 \/ left >= k
\* some bytes of a buffer reach the file
WriteG == /\ pc \in {"fill", "flushg"} /\ g.n < gb
          /\ \/ Room(1) /\ g' = [g EXCEPT !.n = @ + 1] /\ left' = (IF left = -1 THEN -1 ELSE left - 1) /\ UNCHANGED <<pc, res>>
             \/ Full /\ pc' = "end" /\ res' = "err" /\ UNCHANGED <<g, left>>
          /\ UNCHANGED <<d, gb, db>>
WriteD == /\ pc \in {"fill", "flushd"} /\ d.n < db
          /\ \/ Room(1) /\ d' = [d EXCEPT !.n = @ + 1] /\ left' = (IF left = -1 THEN -1 ELSE left - 1) /\ UNCHANGED <<pc, res>>
             \/ /\ Full /\ UNCHANGED <<d, left>>
                /\ IF LoseFlush THEN pc' = "flushg" /\ res' = "none"
                   ELSE pc' = "end" /\ res' = "err"
          /\ UNCHANGED <<g, gb, db>>
FlushedD == /\ pc = "flushd" /\ d.n = DLen
            /\ pc' = "flushg" /\ res' = res
            /\ UNCHANGED <<g, d, gb, db, left>>
FlushedG == /\ pc = "flushg" /\ g.n = GLen
            /\ pc' = "end" /\ res' = "ok"
            /\ UNCHANGED <<g, d, gb, db, left>>
Crash == pc # "end" /\ pc' = "end" /\ res' = "crash" /\ UNCHANGED <<g, d, gb, db, left>>

Next == OpenG \/ OpenD \/ Fill \/ Filled \/ WriteG \/ WriteD \/ FlushedD \/ FlushedG \/ Crash
Spec == Init /\ [][Next]_vars

Complete(x, n) == x.of # "none" /\ x.n = n
Loads == Complete(g, GLen) /\ (TrustGraph \/ (Complete(d, DLen) /\ g.of = d.of))

\* an interrupted dump does not load, except if nothing was missing (or nothing was changed yet)
OnlyComplete == Loads => Complete(d, DLen) /\ d.of = g.of
OkIsComplete == res = "ok" => Complete(g, GLen) /\ Complete(d, DLen) /\ g.of = "new" /\ d.of = "new"
==============================================================================

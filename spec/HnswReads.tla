----------------------------- MODULE HnswReads ------------------------------
(***************************************************************************)
(* Reads made while other threads insert, on top of HnswConc: the number of *)
(* points (kept apart from the table: a step of its own in an insertion),   *)
(* the lookup of the data at a position (which looks at the level of the    *)
(* entry point, then at the length of the layer, then at the point), the    *)
(* level of the entry point, the extraction of all neighbourhoods (holding  *)
(* the table, the lists of one point at a time).                            *)
(*                                                                          *)
(*   Split   the lists of a point are read one by one in an extraction      *)
(*   Early   a point is counted before it is in the table, and the length   *)
(*           of a layer is taken for granted in a lookup (an index out of   *)
(*           range)                                                         *)
(***************************************************************************)
EXTENDS HnswConc

CONSTANTS Split, Early

VARIABLES nbp,      \* keys that have been counted
          past      \* all the lists each point had so far
rvars == <<vars, nbp, past>>

KReads == {<<"ins", "cnt">>, <<"ins", "look">>, <<"ins", "mlo">>, <<"ins", "flat">>, <<"ins", "iter">>,
           <<"ins", "ins", "cnt">>, <<"ins", "ins", "look">>, <<"ins", "ins", "flat">>}
KLook == {<<"ins", "ins", "look">>, <<"ins", "look">>}
KFlat == {<<"ins", "ins", "flat">>, <<"ins", "flat">>}

\* rank of a point in its layer: prefilled points in the order of keys, then in the order of arrival; as points are only added
\* any numbering will do: keys in the table of the layer
InLayer(l) == {k \in Keys(g) : g.lev[k] = l}
Over == {R(t).k : t \in {u \in Threads : R(u).kind = "ins" /\ R(u).pc = "done"}} \cup 1..NPre
Begun == {R(t).k : t \in {u \in Threads : R(u).kind = "ins" /\ R(u).pc # "start"}} \cup Keys(g) \cup nbp

Same == UNCHANGED <<D, par, g, rd, ww, tabr, tabw>>

\* the insertion counts its point
CountPoint(t) ==
    /\ R(t).kind = "ins" /\ R(t).k \notin nbp
    /\ (IF Early THEN R(t).pc = "start" ELSE R(t).pc = "ep")
    /\ nbp' = nbp \cup {R(t).k}
    /\ UNCHANGED vars

MayGoOn(t) == R(t).kind = "ins" => IF Early THEN R(t).k \in nbp ELSE R(t).pc = "ep" => R(t).k \in nbp

\* seen: the points whose insertion was over when the read began; cnt: what was read
Count(t) ==
    /\ R(t).kind = "cnt" /\ R(t).pc = "start"
    /\ Step(t, [R(t) EXCEPT !.pc = "done", !.cnt = Cardinality(nbp), !.seen = Over, !.ans = <<Cardinality(Over), Cardinality(Begun)>>])
    /\ Same /\ UNCHANGED nbp
Mlo(t) ==
    /\ R(t).kind = "mlo" /\ R(t).pc = "start"
    /\ Step(t, [R(t) EXCEPT !.pc = "done", !.cnt = IF g.ep = 0 THEN 0 ELSE g.lev[g.ep], !.seen = Over, !.had = g.ep # 0])
    /\ Same /\ UNCHANGED nbp

\* lookup of the last point (lvl, k): any level, any place in a layer
LStart(t) ==
    /\ R(t).kind = "look" /\ R(t).pc = "start"
    /\ \E l \in 0..2 : \E n \in 1..NPre + 1 :
        Step(t, IF l > (IF g.ep = 0 THEN 0 ELSE g.lev[g.ep])
                THEN [R(t) EXCEPT !.pc = "done", !.l = l, !.cnt = n, !.seen = Over, !.had = FALSE]
                ELSE [R(t) EXCEPT !.pc = "len", !.l = l, !.cnt = n, !.seen = Over])
    /\ Same /\ UNCHANGED nbp
\* in a layer the points counted (Early: the layer is supposed to have as many as are counted)
LLen(t) ==
    /\ R(t).kind = "look" /\ R(t).pc = "len" /\ CanReadTab(t)
    /\ LET n == IF Early THEN Cardinality({k \in nbp : IF k \in Keys(g) THEN g.lev[k] = R(t).l ELSE \E u \in Threads : R(u).k = k /\ R(u).lvl = R(t).l})
                ELSE Cardinality(InLayer(R(t).l))
       IN Step(t, IF R(t).cnt > n THEN [R(t) EXCEPT !.pc = "done", !.had = FALSE] ELSE [R(t) EXCEPT !.pc = "data"])
    /\ Same /\ UNCHANGED nbp
LData(t) ==
    /\ R(t).kind = "look" /\ R(t).pc = "data" /\ CanReadTab(t)
    /\ Step(t, [R(t) EXCEPT !.pc = IF R(t).cnt <= Cardinality(InLayer(R(t).l)) THEN "done" ELSE "out of range", !.had = TRUE])
    /\ Same /\ UNCHANGED nbp

FStart(t) ==
    /\ R(t).kind = "flat" /\ R(t).pc = "start" /\ CanReadTab(t)
    /\ tabr' = tabr \cup {t}
    /\ Step(t, [R(t) EXCEPT !.pc = "flat", !.seen = {}, !.cnt = Cardinality(Keys(g))])
    /\ UNCHANGED <<D, par, g, rd, ww, tabw, nbp>>
NextOf(t) == LET rest == Keys(g) \ R(t).seen IN CHOOSE x \in rest : \A y \in rest : x <= y
\* Split: first the upper lists, then the lowest one
FUpper(t) ==
    /\ Split /\ R(t).kind = "flat" /\ R(t).pc = "flat" /\ Keys(g) \ R(t).seen # {}
    /\ LET x == NextOf(t) IN
       Step(t, [R(t) EXCEPT !.pc = "lower", !.todo = IF Len(g.nb[x]) <= 1 THEN <<>> ELSE Tail(g.nb[x])])
    /\ Same /\ UNCHANGED nbp
FNext(t) ==
    /\ R(t).kind = "flat" /\ R(t).pc = (IF Split THEN "lower" ELSE "flat") /\ Keys(g) \ R(t).seen # {}
    /\ LET x == NextOf(t)
           ls == IF Split THEN (IF g.nb[x] = <<>> /\ R(t).todo = <<>> THEN <<>> ELSE <<NB(g, x, 0)>> \o R(t).todo) ELSE g.nb[x]
       IN /\ CanRead(x, t)
          /\ Step(t, [R(t) EXCEPT !.pc = "flat", !.seen = @ \cup {x}, !.dl = Append(@, <<x, ls>>), !.todo = <<>>])
    /\ Same /\ UNCHANGED nbp
FEnd(t) ==
    /\ R(t).kind = "flat" /\ R(t).pc = "flat" /\ Keys(g) \ R(t).seen = {}
    /\ tabr' = tabr \ {t}
    /\ Step(t, [R(t) EXCEPT !.pc = "done"])
    /\ UNCHANGED <<D, par, g, rd, ww, tabw, nbp>>

ReadStep(t) ==
    \/ MayGoOn(t) /\ ThreadStep(t) /\ UNCHANGED nbp
    \/ CountPoint(t) \/ Count(t) \/ Mlo(t) \/ LStart(t) \/ LLen(t) \/ LData(t)
    \/ FStart(t) \/ FUpper(t) \/ FNext(t) \/ FEnd(t)

RInit == Init /\ nbp = Keys(g) /\ past = [k \in Keys(g) |-> {g.nb[k]}]
Remember == past' = [k \in Keys(g') |-> {g'.nb[k]} \cup (IF k \in Keys(g) THEN past[k] ELSE {})]
RNext == \/ \E t \in Threads : ReadStep(t) /\ Remember
         \/ Finished /\ UNCHANGED <<nbp, past>>
RSpec == RInit /\ [][RNext]_rvars /\ \A t \in 1..MaxThreads : WF_rvars(t \in Threads /\ ReadStep(t) /\ Remember)

----------------------------------------------------------------------------
(* P23                                                                      *)
CountSound == \A t \in Threads : R(t).kind = "cnt" /\ R(t).pc = "done" => R(t).ans[1] <= R(t).cnt /\ R(t).cnt <= R(t).ans[2]
\* what is counted is in the table, and all of it in the end
CountKept == /\ ~Early => nbp \subseteq Keys(g)
             /\ AllDone => nbp = Keys(g)
MloSound == \A t \in Threads : R(t).kind = "mlo" /\ R(t).pc = "done" =>
                /\ \A k \in R(t).seen : k \in Keys(g) => g.lev[k] <= R(t).cnt
                /\ R(t).had => InLayer(R(t).cnt) # {}
InRange == \A t \in Threads : R(t).pc # "out of range"
\* a lookup at a position of a point whose insertion was over finds it
LookSound == \A t \in Threads : R(t).kind = "look" /\ R(t).pc = "done" =>
                IF R(t).had THEN R(t).cnt <= Cardinality(InLayer(R(t).l))
                ELSE R(t).cnt > Cardinality({k \in R(t).seen : g.lev[k] = R(t).l})
IterAll == \A t \in Threads : R(t).kind = "iter" /\ R(t).pc = "done" => 1..NPre \subseteq R(t).seen /\ R(t).seen \subseteq Keys(g)
FlatSound == \A t \in Threads : R(t).kind = "flat" /\ R(t).pc = "done" =>
                /\ Len(R(t).dl) = R(t).cnt /\ Cardinality(R(t).seen) = R(t).cnt
                /\ \A j \in 1..Len(R(t).dl) : \E ls \in past[R(t).dl[j][1]] : ls = R(t).dl[j][2]
RTerminates == <>AllDone
=============================================================================

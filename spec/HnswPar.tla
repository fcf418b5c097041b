------------------------------ MODULE HnswPar ------------------------------
(***************************************************************************)
(* The parallel search: requests are taken by workers in any order, each    *)
(* worker computes its answer and sends it with the rank of the request     *)
(* through a channel, and the answers are put back in the order of the      *)
(* requests (P07).  Queries[i] is the query of request i; requests may be   *)
(* equal.  ByRank = FALSE gives the answers in the order of arrival: the    *)
(* property excludes it.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NReq, NWorkers, NQueries, ByRank

VARIABLES queries, todo, work, chan, answers
vars == <<queries, todo, work, chan, answers>>

Ans(q) == q * 10      \* the sequential answer to a query

Init == /\ queries \in [1..NReq -> 1..NQueries]
        /\ todo = 1..NReq
        /\ work = [w \in 1..NWorkers |-> 0]
        /\ chan = <<>>
        /\ answers = <<>>
Take(w, r) == /\ work[w] = 0 /\ r \in todo
              /\ work' = [work EXCEPT ![w] = r] /\ todo' = todo \ {r}
              /\ UNCHANGED <<queries, chan, answers>>
Send(w) == /\ work[w] # 0
           /\ chan' = Append(chan, <<work[w], Ans(queries[work[w]])>>)
           /\ work' = [work EXCEPT ![w] = 0]
           /\ UNCHANGED <<queries, todo, answers>>
Idle == todo = {} /\ \A w \in 1..NWorkers : work[w] = 0
\* the channel is closed when all workers have dropped their end
Collect == /\ Idle /\ answers = <<>> /\ NReq > 0
           /\ answers' = IF ByRank
                         THEN [r \in 1..NReq |-> LET j == CHOOSE j \in 1..Len(chan) : chan[j][1] = r IN chan[j][2]]
                         ELSE [r \in 1..NReq |-> chan[r][2]]
           /\ UNCHANGED <<queries, todo, work, chan>>
Next == (\E w \in 1..NWorkers : Send(w) \/ \E r \in 1..NReq : Take(w, r)) \/ Collect
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Correct == answers # <<>> => Len(answers) = NReq /\ \A r \in 1..NReq : answers[r] = Ans(queries[r])
OncePerRequest == \A a, b \in 1..Len(chan) : a # b => chan[a][1] # chan[b][1]
Ends == <>(NReq = 0 \/ answers # <<>>)
=============================================================================

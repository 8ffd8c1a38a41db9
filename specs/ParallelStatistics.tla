------------------------ MODULE ParallelStatistics ------------------------
(* Observation statistics and counters of a problem whose episodes are       *)
(* played by workers. Each worker starts a request with the statistics of    *)
(* the main process, learns from the observations of its own episodes, and   *)
(* keeps apart what is new. When the request completes, what is new is       *)
(* merged into the main statistics, once, and the totals are those of the    *)
(* counters of all workers. A problem without workers is one worker.         *)
EXTENDS RunningStats, FiniteSets

VARIABLES
    busy,    \* whether a request is being served
    main,    \* statistics of the main process
    totals,  \* <<interactions, episodes>> of the main process
    known,   \* worker -> statistics by which it normalises
    new,     \* worker -> what it has not reported yet
    counted  \* worker -> <<interactions, episodes>>
pvars == <<busy, main, totals, known, new, counted>>

Workers == DOMAIN known
Zero == <<0, 0>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>

RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN Zero ELSE LET w == CHOOSE x \in S : TRUE IN Add(f[w], SumOver(f, S \ {w}))
RECURSIVE MergeOver(_, _)
MergeOver(f, S) == IF S = {} THEN Nothing ELSE LET w == CHOOSE x \in S : TRUE IN Joined(f[w], MergeOver(f, S \ {w}))

PInit(W) ==
    /\ busy = FALSE /\ main = Nothing /\ totals = Zero
    /\ known = [w \in W |-> Nothing] /\ new = [w \in W |-> Nothing] /\ counted = [w \in W |-> Zero]

Begin == /\ ~busy /\ busy' = TRUE
         /\ known' = [w \in Workers |-> main]
         /\ UNCHANGED <<main, totals, new, counted>>

Observe(w, xs) ==
    /\ busy
    /\ known' = [known EXCEPT ![w] = Joined(@, All(xs))]
    /\ new' = [new EXCEPT ![w] = Joined(@, All(xs))]
    /\ UNCHANGED <<busy, main, totals, counted>>

Play(w, k) == busy /\ counted' = [counted EXCEPT ![w] = Add(@, k)] /\ UNCHANGED <<busy, main, totals, known, new>>

End == /\ busy /\ busy' = FALSE
       /\ main' = Joined(main, MergeOver(new, Workers))
       /\ new' = [w \in Workers |-> Nothing]
       /\ totals' = SumOver(counted, Workers)
       /\ UNCHANGED <<known, counted>>

\* the workers are shut down, and others take their place: the totals are continued by one of them
Replace == /\ ~busy
           /\ LET first == CHOOSE w \in Workers : \A v \in Workers : w <= v
              IN counted' = [w \in Workers |-> IF w = first THEN totals ELSE Zero]
           /\ UNCHANGED <<busy, main, totals, known, new>>

\* the statistics of the main process are replaced, or extended, by others
Put(s) == ~busy /\ main' = s /\ UNCHANGED <<busy, totals, known, new, counted>>
=============================================================================

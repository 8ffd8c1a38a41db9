----------------------- MODULE MCParallelStatistics -----------------------
EXTENDS ParallelStatistics
CONSTANTS MaxFed, NumWorkers
VARIABLES fed, played, left
vars == <<pvars, fed, played, left>>

Init == PInit(1..NumWorkers) /\ fed = Nothing /\ played = Zero /\ left = MaxFed
Next ==
    \/ (Begin \/ End \/ Replace) /\ UNCHANGED <<fed, played, left>>
    \/ left > 0 /\ left' = left - 1 /\ \E w \in Workers :
        \/ \E x \in {0, 1} : Observe(w, <<<<x>>>>) /\ fed' = Joined(fed, One(<<x>>)) /\ UNCHANGED played
        \/ \E e \in {0, 1} : Play(w, <<1, e>>) /\ played' = Add(played, <<1, e>>) /\ UNCHANGED fed
    \/ left > 0 /\ left' = left - 1 /\ Put(Joined(main, One(<<2>>))) /\ fed' = Joined(fed, One(<<2>>)) /\ UNCHANGED played
Spec == Init /\ [][Next]_vars

\* between requests, every observation and every step is in the main statistics exactly once
Once == ~busy => main = fed /\ totals = played
\* meanwhile, nothing is lost
Kept == Joined(main, MergeOver(new, Workers)) = fed /\ SumOver(counted, Workers) = played
\* a worker normalises by what the main process knew, and by its own observations
Seen == busy => \A w \in Workers : known[w] = Joined(main, new[w])
=============================================================================

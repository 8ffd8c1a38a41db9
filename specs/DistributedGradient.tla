------------------------ MODULE DistributedGradient ------------------------
(* Estimation of a gradient by a pool of workers.                             *)
(*                                                                            *)
(* The requested population is divided into shares, one task per share. A     *)
(* task is executed by one worker: it evaluates a batch of the size of the    *)
(* share, and goes on with further batches of that size until its part of the *)
(* interaction budget is used up or its part of the maximum size is reached;  *)
(* its estimate is made from all the samples of the task. The main process    *)
(* combines the estimates of the tasks, which arrive in any order.            *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
    req,      \* the request: [popsize, even, budget, max] (budget, max: 0 for none)
    shares,   \* sizes of the tasks
    open,     \* tasks not taken yet
    busy,     \* worker -> task (0: none)
    done,     \* task -> [n, inter, batches] : what was evaluated for the task
    fin,      \* the finished tasks, in the order in which their estimates arrived
    est       \* task -> estimate (an integer), known when finished

gvars == <<req, shares, open, busy, done, fin, est>>

Min(a, b) == IF a < b THEN a ELSE b
Ceil(a, b) == (a + b - 1) \div b

RECURSIVE SumUp(_, _)
SumUp(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumUp(s, k - 1)
Total(s) == SumUp(s, Len(s))

-----------------------------------------------------------------------------
(* Shares of a population: in k parts as equal as possible, or in parts of    *)
(* a fixed size (of which the population must be a multiple). Mirrored        *)
(* samples need even shares: an odd one gets one more. Empty shares vanish.   *)
Equal(n, k) == [i \in 1..Min(n, k) |-> n \div k + (IF i <= n % k THEN 1 ELSE 0)]
Fixed(n, s) == [i \in 1..(n \div s) |-> s]
Even(s) == [i \in 1..Len(s) |-> s[i] + (s[i] % 2)]

Admissible(n, how) == how.kind = "size" => n % how.arg = 0
SharesOf(n, W, how, even) ==
    LET s == CASE how.kind = "size" -> Fixed(n, how.arg)
               [] how.kind = "count" -> Equal(n, how.arg)
               [] OTHER -> Equal(n, W)
    IN IF even THEN Even(s) ELSE s

(* A task's part of a budget (or of a maximum).                               *)
Part(share, popsize, total) == Ceil(share * total, popsize)

\* a task which has evaluated n samples with the given interactions may stop
MayStop(share, popsize, budget, max, n, inter) ==
    \/ budget = 0
    \/ inter >= Part(share, popsize, budget)
    \/ max > 0 /\ n >= Part(share, popsize, max)

-----------------------------------------------------------------------------
Request(r, W, how) ==
    /\ req' = r
    /\ shares' = SharesOf(r.popsize, W, how, r.even)
    /\ open' = 1..Len(shares')
    /\ busy' = [w \in 1..W |-> 0]
    /\ done' = [t \in 1..Len(shares') |-> [n |-> 0, inter |-> 0, batches |-> 0]]
    /\ fin' = <<>>
    /\ est' = [t \in 1..Len(shares') |-> 0]

Take(w) ==
    /\ open # {} /\ busy[w] = 0
    /\ LET t == CHOOSE i \in open : \A j \in open : i <= j IN
       busy' = [busy EXCEPT ![w] = t] /\ open' = open \ {t}
    /\ UNCHANGED <<req, shares, done, fin, est>>

Stopped(t) == done[t].batches > 0 /\ MayStop(shares[t], req.popsize, req.budget, req.max, done[t].n, done[t].inter)

Sample(w, i) ==
    /\ busy[w] # 0 /\ ~Stopped(busy[w])
    /\ LET t == busy[w] IN
       done' = [done EXCEPT ![t] = [n |-> @.n + shares[t], inter |-> @.inter + i, batches |-> @.batches + 1]]
    /\ UNCHANGED <<req, shares, open, busy, fin, est>>

Deliver(w, g) ==
    /\ busy[w] # 0 /\ Stopped(busy[w])
    /\ est' = [est EXCEPT ![busy[w]] = g]
    /\ fin' = Append(fin, busy[w])
    /\ busy' = [busy EXCEPT ![w] = 0]
    /\ UNCHANGED <<req, shares, open, done>>

AllIn == Len(fin) = Len(shares) /\ Len(shares) > 0

-----------------------------------------------------------------------------
(* The combination: the average of the estimates, weighted by the numbers of  *)
(* samples they were made from (or all alike). As a fraction.                 *)
RECURSIVE WSum(_, _, _, _)
WSum(order, es, ns, k) == IF k = 0 THEN 0 ELSE es[order[k]] * ns[order[k]] + WSum(order, es, ns, k - 1)
Combined(order, es, ns) == [num |-> WSum(order, es, ns, Len(order)), den |-> Total([k \in 1..Len(order) |-> ns[order[k]]])]

-----------------------------------------------------------------------------
(* The property.                                                              *)
NothingLost ==
    /\ Total(shares) >= req.popsize
    /\ ~req.even => Total(shares) = req.popsize
    /\ req.even => \A t \in 1..Len(shares) : shares[t] % 2 = 0
    /\ Total(shares) <= req.popsize + Len(shares)
    /\ \A t \in 1..Len(shares) : shares[t] > 0

ExactlyOnce ==
    /\ \A t \in 1..Len(shares) : Cardinality({k \in 1..Len(fin) : fin[k] = t}) <= 1
    /\ \A v \in DOMAIN busy, w \in DOMAIN busy : (v # w /\ busy[v] # 0) => busy[v] # busy[w]
    /\ \A t \in 1..Len(shares) : done[t].n = shares[t] * done[t].batches
    /\ (req.budget = 0) => \A t \in 1..Len(shares) : done[t].batches <= 1

\* the order in which the estimates arrive does not matter
OrderFree ==
    AllIn => LET ns == [t \in 1..Len(shares) |-> done[t].n] IN
             Combined(fin, est, ns) = Combined([t \in 1..Len(shares) |-> t], est, ns)

\* the budget is met, unless the maximum size was reached
BudgetMet ==
    (AllIn /\ req.budget > 0) =>
        \/ Total([t \in 1..Len(shares) |-> done[t].inter]) >= req.budget
        \/ req.max > 0 /\ \E t \in 1..Len(shares) : done[t].n >= Part(shares[t], req.popsize, req.max)
=============================================================================

---------------------- MODULE MCDistributedGradient ----------------------
(* All worker counts, share settings, budgets and maxima within the bounds, *)
(* all numbers of interactions per batch, all completion orders.            *)
EXTENDS DistributedGradient

CONSTANTS MaxPop, MaxWorkers, MaxBudget

VARIABLES W, how

Hows == {[kind |-> "default", arg |-> 0]} \cup {[kind |-> k, arg |-> a] : k \in {"count", "size"}, a \in 1..3}
Reqs == {[popsize |-> n, even |-> e, budget |-> b, max |-> m] :
            n \in 1..MaxPop, e \in BOOLEAN, b \in 0..MaxBudget, m \in {0, MaxPop + 2}}

Init ==
    /\ W \in 1..MaxWorkers /\ how \in Hows
    /\ \E r \in Reqs :
       /\ Admissible(r.popsize, how) /\ (r.budget = 0 => r.max = 0)
       /\ req = r /\ shares = SharesOf(r.popsize, W, how, r.even)
    /\ open = 1..Len(shares) /\ busy = [w \in 1..W |-> 0]
    /\ done = [t \in 1..Len(shares) |-> [n |-> 0, inter |-> 0, batches |-> 0]]
    /\ fin = <<>> /\ est = [t \in 1..Len(shares) |-> 0]

Next ==
    /\ UNCHANGED <<W, how>>
    /\ \E w \in 1..W : Take(w) \/ (\E i \in 1..2 : Sample(w, i)) \/ Deliver(w, 3 * busy[w] - 5)

Inv == NothingLost /\ ExactlyOnce /\ OrderFree /\ BudgetMet /\ (~AllIn => ENABLED Next)
=============================================================================

--------------------- MODULE DistributedGradientTrace ---------------------
(* Recorded estimations. Cfg: W, how (share setting), weighted, tol.        *)
EXTENDS DistributedGradient, TraceBase

VARIABLE tasks   \* what the workers did for the request, one record per task

TInit ==
    /\ StartTrace /\ tasks = <<>>
    /\ req = [popsize |-> 0, even |-> FALSE, budget |-> 0, max |-> 0]
    /\ shares = <<>> /\ open = {} /\ busy = <<>> /\ done = <<>> /\ fin = <<>> /\ est = <<>>

Same == UNCHANGED <<open, busy, done, fin, est>>

Near(a, b) == a - b <= Cfg.tol /\ b - a <= Cfg.tol
NearAll(s, t) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : Near(s[k], t[k])

AskOk ==
    /\ req' = [popsize |-> Ev.popsize, even |-> Ev.even, budget |-> Ev.budget, max |-> Ev.max]
    /\ tasks' = <<>> /\ UNCHANGED shares /\ Same

\* a part of a total is computed with fractions: at an exact multiple it may come out one larger
Slack(share, total) ==
    IF (share * total) % req.popsize = 0 /\ share # req.popsize /\ req.popsize \notin {1, 2, 4, 8, 16, 32} THEN 1 ELSE 0
MustStop(share, n, inter) ==
    \/ req.budget = 0
    \/ inter >= Part(share, req.popsize, req.budget) + Slack(share, req.budget)
    \/ req.max > 0 /\ n >= Part(share, req.popsize, req.max) + Slack(share, req.max)

TaskOk ==
    LET share == Ev.sizes[1]
        b == Len(Ev.sizes)
        n == Total(Ev.sizes)
        inter == Total(Ev.inters)
    IN
    /\ Chk("a task evaluates something", share > 0)
    /\ Chk("all batches of a task have the size of its share", \A k \in 1..b : Ev.sizes[k] = share)
    /\ Chk("mirrored samples need even shares", req.even => share % 2 = 0)
    /\ Chk("a task goes on until its part of the budget or of the maximum is reached",
           MayStop(share, req.popsize, req.budget, req.max, n, inter))
    /\ Chk("a task stops as soon as it may",
           b > 1 => ~MustStop(share, n - share, inter - Ev.inters[b]))
    /\ Chk("as many samples as reported", Len(Ev.ids) = n)
    /\ Chk("samples are not repeated", Cardinality({Ev.ids[k] : k \in 1..n}) = n)
    /\ Chk("samples of different workers differ",
           \A t \in 1..Len(tasks) : \A k \in 1..n : \A j \in 1..Len(tasks[t].ids) : tasks[t].ids[j] # Ev.ids[k])
    /\ Chk("workers are told the current request", Ev.token = -1 \/ Ev.token = Ev.request)
    /\ tasks' = Append(tasks, [n |-> n, share |-> share, ids |-> Ev.ids, est |-> Ev.est, mean |-> Ev.mean])
    /\ UNCHANGED <<req, shares>> /\ Same

\* the results given back, and what the search made of them
Matches(r, t) == r.n = t.n /\ Near(r.mean, t.mean) /\ NearAll(r.grad, t.est)
ResultOk ==
    LET R == Ev.results
        sizes == [t \in 1..Len(tasks) |-> tasks[t].share]
        want == SharesOf(req.popsize, Cfg.W, Cfg.how, req.even)
        w == [k \in 1..Len(R) |-> IF Cfg.weighted THEN R[k].n ELSE 1]
        den == Total(w)
    IN
    /\ Chk("nothing of the population is lost or repeated",
           IF req.even THEN Total(sizes) >= req.popsize /\ Total(sizes) <= req.popsize + Len(sizes) ELSE Total(sizes) = req.popsize)
    /\ Chk("as many tasks as configured", Cfg.how.kind # "default" => Len(sizes) = Len(want))
    /\ Chk("every worker has its share", Cfg.how.kind = "default" => Len(sizes) <= Cfg.W)
    /\ Chk("one result per task", Len(R) = Len(tasks))
    /\ Chk("each result is the estimate of a task from its own samples", \A k \in 1..Len(R) : \E t \in 1..Len(tasks) : Matches(R[k], tasks[t]))
    /\ Chk("each task has its result", \A t \in 1..Len(tasks) : \E k \in 1..Len(R) : Matches(R[k], tasks[t]))
    /\ Chk("the combined estimate is the average of the estimates, weighted by their shares",
           Ev.combined = <<>> \/
           /\ Len(Ev.combined) = Len(R[1].grad)
           /\ \A j \in 1..Len(Ev.combined) :
                LET d == Ev.combined[j] * den - Total([k \in 1..Len(R) |-> w[k] * R[k].grad[j]]) IN
                d <= Cfg.tol * den /\ -d <= Cfg.tol * den)
    /\ Chk("the reported mean is that of all samples",
           Ev.combined = <<>> \/
           LET N == Total([k \in 1..Len(R) |-> R[k].n])
               d == Ev.mean * N - Total([k \in 1..Len(R) |-> R[k].n * R[k].mean]) IN
           d <= Cfg.tol * N /\ -d <= Cfg.tol * N)
    /\ shares' = sizes /\ UNCHANGED <<req, tasks>> /\ Same

\* only the gradients were asked for
GradsOk ==
    /\ Chk("one result per task", Len(Ev.results) = Len(tasks))
    /\ Chk("each result is the estimate of a task", \A k \in 1..Len(Ev.results) : \E t \in 1..Len(tasks) : NearAll(Ev.results[k], tasks[t].est))
    /\ Chk("each task has its result", \A t \in 1..Len(tasks) : \E k \in 1..Len(Ev.results) : NearAll(Ev.results[k], tasks[t].est))
    /\ UNCHANGED <<req, shares, tasks>> /\ Same

\* what the workers reported to the main process: the totals of what was played
SyncOk ==
    /\ Chk("every worker reports once", Len(Ev.counts) = Cfg.W)
    /\ Chk("the totals are what was evaluated", Total(Ev.counts) = Ev.rows)
    /\ UNCHANGED <<req, shares, tasks>> /\ Same

RefusedOk ==
    /\ Chk("a population which is no multiple of the fixed share is refused", Ev.refused = ~Admissible(Ev.popsize, Cfg.how))
    /\ UNCHANGED <<req, shares, tasks>> /\ Same

SplitOk ==
    /\ Chk("the parts of a workload", Ev.parts = [i \in 1..Ev.k |-> Ev.n \div Ev.k + (IF i <= Ev.n % Ev.k THEN 1 ELSE 0)])
    /\ UNCHANGED <<req, shares, tasks>> /\ Same

TNext ==
    /\ More /\ Consume
    /\ \/ Ev.op = "ask" /\ AskOk
       \/ Ev.op = "task" /\ TaskOk
       \/ Ev.op = "result" /\ ResultOk
       \/ Ev.op = "grads" /\ GradsOk
       \/ Ev.op = "sync" /\ SyncOk
       \/ Ev.op = "refused" /\ RefusedOk
       \/ Ev.op = "split" /\ SplitOk
=============================================================================

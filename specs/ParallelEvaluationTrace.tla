---------------------- MODULE ParallelEvaluationTrace ----------------------
(* Recorded evaluations. Cfg: W (workers), kind and arg (sub-batch setting),  *)
(* nobj, naux.                                                                *)
EXTENDS ParallelEvaluation, TraceBase

VARIABLES
    sel,     \* the rows which were requested
    req,     \* the number of requests so far
    tally    \* worker number -> how many rows it evaluated since it was created

tvars == <<sel, req, tally>>

TInit ==
    /\ StartTrace
    /\ rows = <<>> /\ evals = <<>> /\ cnt = <<>> /\ pieces = <<>> /\ waiting = {} /\ at = <<>> /\ back = {}
    /\ phase = "idle" /\ gen = 0
    /\ sel = {} /\ req = 0 /\ tally = [w \in 0..(Cfg.W - 1) |-> 0]

Same == UNCHANGED <<pieces, waiting, at, back>>

Occurs(v, s) == Cardinality({k \in 1..Len(s) : s[k] = v})
Open(v) == {i \in sel : rows[i] = v /\ cnt[i] = 0}
Rank(i) == Cardinality({j \in Open(rows[i]) : j <= i})

RequestOk ==
    /\ Chk("one request at a time", phase = "idle")
    /\ phase' = "busy" /\ rows' = Ev.rows /\ evals' = Ev.old
    /\ sel' = {Ev.sel[k] : k \in 1..Len(Ev.sel)}
    /\ cnt' = [i \in 1..Len(Ev.rows) |-> 0]
    /\ req' = req + 1
    /\ UNCHANGED <<gen, tally>> /\ Same

\* some worker evaluates some of the requested rows (equal rows stand for each other)
WorkOk ==
    /\ Chk("nothing is evaluated outside of a request", phase = "busy")
    /\ Chk("only requested solutions are evaluated, and none of them twice",
           \A k \in 1..Len(Ev.vals) : Occurs(Ev.vals[k], Ev.vals) <= Cardinality(Open(Ev.vals[k])))
    /\ Chk("a worker was told which request it works for", Ev.token = -1 \/ Ev.token = req)
    /\ Chk("a piece is not larger than the sub-batch size", (Cfg.kind = "size" /\ Cfg.W > 0) => Len(Ev.vals) <= Cfg.arg)
    /\ Chk("no evaluation of nothing, unless nothing was requested", Len(Ev.vals) = 0 => sel = {})
    /\ cnt' = [i \in 1..Len(rows) |-> IF i \in sel /\ cnt[i] = 0 /\ Rank(i) <= Occurs(rows[i], Ev.vals) THEN 1 ELSE cnt[i]]
    /\ tally' = IF Ev.worker \in DOMAIN tally THEN [tally EXCEPT ![Ev.worker] = @ + Len(Ev.vals)] ELSE tally
    /\ UNCHANGED <<rows, evals, phase, gen, sel, req>> /\ Same

DoneOk ==
    /\ Chk("a request was made", phase = "busy")
    /\ Chk("every requested solution was evaluated", \A i \in sel : cnt[i] = 1)
    /\ Chk("the decision values are untouched", Ev.rows = rows)
    /\ Chk("each requested solution has its own result", \A i \in sel : Ev.evals[i] = Result(rows[i], Cfg.nobj, Cfg.naux))
    /\ Chk("other solutions keep their results", \A i \in (1..Len(rows)) \ sel : Ev.evals[i] = evals[i])
    /\ Chk("as many results as solutions", Len(Ev.evals) = Len(rows))
    /\ Chk("hooks are called once with the requested batch", Ev.before = <<Cardinality(sel)>> /\ Ev.after = <<Cardinality(sel)>>)
    /\ evals' = Ev.evals /\ phase' = "idle"
    /\ UNCHANGED <<rows, cnt, gen, sel, req, tally>> /\ Same

\* what the workers report to the main process after a request, in the order of the workers
SyncOk ==
    /\ Chk("every worker reports once", Len(Ev.counts) = Cfg.W)
    /\ Chk("each worker reports what it did", \A w \in 1..Cfg.W : Ev.counts[w] = tally[w - 1])
    /\ UNCHANGED <<rows, evals, cnt, phase, gen, sel, req, tally>> /\ Same

\* a method called on all workers
RollOk ==
    /\ Chk("every worker answers once, in order", Ev.answers = [k \in 1..Cfg.W |-> <<k - 1, Ev.arg>>])
    /\ Chk("the main instance is told apart", Ev.main)
    /\ UNCHANGED <<rows, evals, cnt, phase, gen, sel, req, tally>> /\ Same

ShutOk ==
    /\ Chk("shut down between requests", phase = "idle")
    /\ Chk("no worker is left", Ev.none)
    /\ tally' = [w \in 0..(Cfg.W - 1) |-> 0]
    /\ UNCHANGED <<rows, evals, cnt, phase, gen, sel, req>> /\ Same

\* as many workers as configured, with seeds of their own
WorkersOk ==
    /\ Chk("as many workers as configured", Ev.n = Cfg.W)
    /\ Chk("workers draw different numbers", \A v \in 1..Len(Ev.draws), w \in 1..Len(Ev.draws) : v # w => Ev.draws[v] # Ev.draws[w])
    /\ UNCHANGED <<rows, evals, cnt, phase, gen, sel, req, tally>> /\ Same

TNext ==
    /\ More /\ Consume
    /\ \/ Ev.op = "request" /\ RequestOk
       \/ Ev.op = "work" /\ WorkOk
       \/ Ev.op = "done" /\ DoneOk
       \/ Ev.op = "sync" /\ SyncOk
       \/ Ev.op = "roll" /\ RollOk
       \/ Ev.op = "shutdown" /\ ShutOk
       \/ Ev.op = "workers" /\ WorkersOk
=============================================================================

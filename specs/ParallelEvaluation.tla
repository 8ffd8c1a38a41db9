------------------------ MODULE ParallelEvaluation ------------------------
(* Evaluation of a batch of solutions by a pool of workers.                  *)
(*                                                                           *)
(* The main process cuts the requested rows into pieces, hands the pieces to *)
(* idle workers, and writes each result back to the rows of its piece. The   *)
(* workers finish in any order. Workers are created on the first request and *)
(* may be shut down between requests.                                        *)
(*                                                                           *)
(* A row is a sequence of integers (its decision values); what its values    *)
(* yield is given by Result. Evaluation results which are not there yet are  *)
(* the empty sequence.                                                       *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
    rows,      \* the rows of the requested batch
    evals,     \* the results stored for the rows
    cnt,       \* how many times each row was evaluated within this request
    pieces,    \* sequence of [lo, hi]: the rows lo..hi
    waiting,   \* indices of the pieces not handed out yet
    at,        \* worker -> index of the piece it works on (0: none)
    back,      \* finished and not yet written back: set of [piece, evs]
    phase,     \* "idle" | "busy"
    gen        \* how many times workers were created; 0: never, negative: shut down

pvars == <<rows, evals, cnt, pieces, waiting, at, back, phase, gen>>

-----------------------------------------------------------------------------
(* What decision values yield. Objective number o of a row x, then the       *)
(* auxiliary evaluation data.                                                *)
RECURSIVE Weighted(_, _)
Weighted(x, k) == IF k > Len(x) THEN 0 ELSE k * x[k] + Weighted(x, k + 1)
Last(x) == IF Len(x) = 0 THEN 0 ELSE x[Len(x)]

Objective(x, o) == Weighted(x, 1) * o + Last(x) * Last(x) + Len(x) + o
AuxData(x, j) == 7 * j - 3 * Weighted(x, 1)
Result(x, nobj, naux) ==
    [k \in 1..(nobj + naux) |-> IF k <= nobj THEN Objective(x, k) ELSE AuxData(x, k - nobj)]

-----------------------------------------------------------------------------
(* The pieces of n rows.                                                     *)
Min(a, b) == IF a < b THEN a ELSE b

\* in k pieces whose sizes differ by at most one (empty ones are not handed out)
Shares(n, k) == [i \in 1..Min(n, k) |-> n \div k + (IF i <= n % k THEN 1 ELSE 0)]
\* in pieces of s rows, and the rest
Chunks(n, s) == [i \in 1..((n + s - 1) \div s) |-> Min(s, n - (i - 1) * s)]

RECURSIVE Ends(_, _)
Ends(sizes, i) == IF i = 0 THEN 0 ELSE sizes[i] + Ends(sizes, i - 1)
Cut(sizes) == [i \in 1..Len(sizes) |-> [lo |-> Ends(sizes, i - 1) + 1, hi |-> Ends(sizes, i)]]

-----------------------------------------------------------------------------
(* The transitions. W: number of workers; how: [kind, arg] sub-batch setting *)
Sizes(n, W, how) ==
    CASE how.kind = "count" -> Shares(n, how.arg)
      [] how.kind = "size" -> Chunks(n, how.arg)
      [] OTHER -> Shares(n, W)

Start(batch, old, W, how) ==
    /\ phase = "idle"
    /\ phase' = "busy"
    /\ rows' = batch
    /\ evals' = old
    /\ cnt' = [i \in 1..Len(batch) |-> 0]
    /\ pieces' = Cut(Sizes(Len(batch), W, how))
    /\ waiting' = {i \in 1..Len(pieces') : TRUE}
    /\ at' = [w \in 1..W |-> 0]
    /\ back' = {}
    /\ gen' = IF gen <= 0 THEN 1 - gen ELSE gen

\* the pieces are handed out in order, to any idle worker
HandOut(w) ==
    /\ phase = "busy" /\ waiting # {} /\ at[w] = 0
    /\ LET p == CHOOSE i \in waiting : \A j \in waiting : i <= j IN
       /\ at' = [at EXCEPT ![w] = p]
       /\ waiting' = waiting \ {p}
    /\ UNCHANGED <<rows, evals, cnt, pieces, back, phase, gen>>

Finish(w, nobj, naux) ==
    /\ phase = "busy" /\ at[w] # 0
    /\ LET p == pieces[at[w]] IN
       /\ back' = back \cup {[piece |-> at[w], evs |-> [i \in 1..(p.hi - p.lo + 1) |-> Result(rows[p.lo + i - 1], nobj, naux)]]}
       /\ cnt' = [i \in 1..Len(cnt) |-> IF p.lo <= i /\ i <= p.hi THEN cnt[i] + 1 ELSE cnt[i]]
    /\ at' = [at EXCEPT ![w] = 0]
    /\ UNCHANGED <<rows, evals, pieces, waiting, phase, gen>>

WriteBack(b) ==
    /\ phase = "busy" /\ b \in back
    /\ LET p == pieces[b.piece] IN
       evals' = [i \in 1..Len(evals) |-> IF p.lo <= i /\ i <= p.hi THEN b.evs[i - p.lo + 1] ELSE evals[i]]
    /\ back' = back \ {b}
    /\ UNCHANGED <<rows, cnt, pieces, waiting, at, phase, gen>>

Complete ==
    /\ phase = "busy" /\ waiting = {} /\ back = {} /\ \A w \in DOMAIN at : at[w] = 0
    /\ phase' = "idle"
    /\ UNCHANGED <<rows, evals, cnt, pieces, waiting, at, back, gen>>

ShutDown ==
    /\ phase = "idle" /\ gen > 0
    /\ gen' = -gen
    /\ UNCHANGED <<rows, evals, cnt, pieces, waiting, at, back, phase>>

-----------------------------------------------------------------------------
(* The property.                                                             *)
Served(nobj, naux) ==
    (phase = "idle" /\ gen # 0) =>
        \A i \in 1..Len(rows) : cnt[i] = 1 /\ evals[i] = Result(rows[i], nobj, naux)

NoDouble ==
    /\ \A i \in 1..Len(cnt) : cnt[i] <= 1
    /\ \A v \in DOMAIN at, w \in DOMAIN at : (v # w /\ at[v] # 0) => at[v] # at[w]

PiecesPartition ==
    \A i \in 1..Len(rows) : Cardinality({p \in 1..Len(pieces) : pieces[p].lo <= i /\ i <= pieces[p].hi}) = 1
=============================================================================

---------------------------- MODULE Supervised ----------------------------
(* Networks judged by their losses over minibatches of a data set. Each      *)
(* process which draws minibatches passes over the data set again and again. *)
(* Items are 1..size; the desired output of item i is 2 i + 1; network       *)
(* <<w, b>> gives w i + b, and the loss of a minibatch is the sum of the     *)
(* differences.                                                              *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLE left   \* for each drawing process: the items which the present pass has not given yet
ToSet(s) == {s[i] : i \in 1..Len(s)}
Min(a, b) == IF a < b THEN a ELSE b

Full(size) == 1..size
Open(size, rest) == IF rest = {} THEN Full(size) ELSE rest
\* a minibatch drawn when the items in rest are left
Fits(size, m, rest, batch) ==
    LET r == Open(size, rest) IN
    /\ Len(batch) = Min(m, Cardinality(r))
    /\ Cardinality(ToSet(batch)) = Len(batch)
    /\ ToSet(batch) \subseteq r
After(size, rest, batch) == Open(size, rest) \ ToSet(batch)

RECURSIVE AllFit(_, _, _, _)
AllFit(size, m, rest, batches) ==
    batches = <<>> \/ (Fits(size, m, rest, batches[1]) /\ AllFit(size, m, After(size, rest, batches[1]), Tail(batches)))
RECURSIVE AfterAll(_, _, _)
AfterAll(size, rest, batches) == IF batches = <<>> THEN rest ELSE AfterAll(size, After(size, rest, batches[1]), Tail(batches))

RECURSIVE Loss(_, _)
Loss(net, batch) == IF batch = <<>> THEN 0 ELSE net[1] * batch[1] + net[2] - (2 * batch[1] + 1) + Loss(net, Tail(batch))
\* the sum of the losses over several minibatches (its average is the fitness)
RECURSIVE Losses(_, _)
Losses(net, batches) == IF batches = <<>> THEN 0 ELSE Loss(net, batches[1]) + Losses(net, Tail(batches))

\* the draws which the evaluation of n networks needs, and what the j-th network sees
Needed(n, k, common) == IF common THEN k ELSE n * k
Shown(j, k, common, draws) == IF common THEN draws ELSE SubSeq(draws, (j - 1) * k + 1, j * k)
=============================================================================

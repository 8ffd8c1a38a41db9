----------------------- MODULE MCParallelEvaluation -----------------------
(* All batch sizes up to MaxRows, all worker counts up to MaxWorkers, all    *)
(* sub-batch settings, all assignments and completion orders, and sequences  *)
(* of Requests requests with shut-downs in between.                          *)
EXTENDS ParallelEvaluation

CONSTANTS MaxRows, MaxWorkers, Requests

VARIABLES W, how, left

Hows == {[kind |-> "default", arg |-> 0]}
        \cup {[kind |-> k, arg |-> a] : k \in {"count", "size"}, a \in 1..(MaxRows + 1)}

Batch(n) == [i \in 1..n |-> <<i, 2 - i>>]
\* what a later request finds in the batch: results of earlier values
Old(n) == [i \in 1..n |-> <<99>>]

Init ==
    /\ W \in 1..MaxWorkers /\ how \in Hows /\ left = Requests
    /\ rows = <<>> /\ evals = <<>> /\ cnt = <<>> /\ pieces = <<>>
    /\ waiting = {} /\ at = [w \in 1..W |-> 0] /\ back = {} /\ phase = "idle" /\ gen = 0

Next ==
    /\ UNCHANGED <<W, how>>
    /\ \/ \E n \in 0..MaxRows : left > 0 /\ left' = left - 1 /\ Start(Batch(n), Old(n), W, how)
       \/ /\ UNCHANGED left
          /\ \/ \E w \in DOMAIN at : HandOut(w) \/ Finish(w, 1, 1)
             \/ \E b \in back : WriteBack(b)
             \/ Complete
             \/ ShutDown

\* once a request was made it ends, whatever the order of the workers
Ends1 == (phase = "busy") => ENABLED Next

Inv == Served(1, 1) /\ NoDouble /\ PiecesPartition /\ Ends1
Spec == Init /\ [][Next]_<<pvars, W, how, left>> /\ WF_<<pvars, W, how, left>>(Next)
Answered == (phase = "busy") ~> (phase = "idle")
=============================================================================

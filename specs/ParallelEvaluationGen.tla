----------------------- MODULE ParallelEvaluationGen -----------------------
(* Histories of requests, completion orders and shut-downs, for replay.       *)
EXTENDS MCParallelEvaluation, TLC, Json

VARIABLE hist

GInit == Init /\ hist = <<>>
GNext ==
    /\ UNCHANGED <<W, how>>
    /\ \/ \E n \in 0..MaxRows : left > 0 /\ left' = left - 1 /\ Start(Batch(n), Old(n), W, how) /\ hist' = Append(hist, [op |-> "request", n |-> n])
       \/ /\ UNCHANGED left
          /\ \/ \E w \in DOMAIN at : HandOut(w) /\ UNCHANGED hist
             \/ \E w \in DOMAIN at : Finish(w, 1, 1) /\ hist' = Append(hist, [op |-> "finish", n |-> w])
             \/ \E b \in back : WriteBack(b) /\ UNCHANGED hist
             \/ Complete /\ UNCHANGED hist
             \/ left > 0 /\ ShutDown /\ hist' = Append(hist, [op |-> "shutdown", n |-> 0])

Emit == (left = 0 /\ phase = "idle") => PrintT("@@GEN " \o ToJson([w |-> W, how |-> how, hist |-> hist]))
=============================================================================

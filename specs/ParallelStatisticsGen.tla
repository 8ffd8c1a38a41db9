----------------------- MODULE ParallelStatisticsGen -----------------------
(* Histories of requests, interleavings, shut-downs and other uses, for      *)
(* replay.                                                                   *)
EXTENDS MCParallelStatistics, TLC, Json
VARIABLES hist, over
GInit == Init /\ hist = <<>> /\ over = FALSE
Did(op, n) == hist' = Append(hist, [op |-> op, n |-> n])
GMore ==
    \/ Begin /\ (\E n \in 1..9 : Did("evaluate", n)) /\ UNCHANGED <<fed, played, left>>
    \/ End /\ Did("end", 0) /\ UNCHANGED <<fed, played, left>>
    \/ Replace /\ Did("replace", 0) /\ UNCHANGED <<fed, played, left>>
    \/ left > 0 /\ left' = left - 1 /\ \E w \in Workers : Observe(w, <<<<1>>>>) /\ Did("finish", w) /\ UNCHANGED <<fed, played>>
    \/ left > 0 /\ left' = left - 1 /\ Put(main) /\ UNCHANGED <<fed, played>>
       /\ \E o \in {"copy", "pickle", "set", "update", "run", "peek", "policy", "gradients", "pop"}, n \in 2..8 : Did(o, n)
GNext == \/ ~over /\ (busy \/ left > 0) /\ GMore /\ UNCHANGED over
         \/ left = 0 /\ ~busy /\ ~over /\ over' = TRUE /\ UNCHANGED <<vars, hist>>
Emit == over => PrintT("@@GEN " \o ToJson(hist))
=============================================================================

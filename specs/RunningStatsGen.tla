-------------------------- MODULE RunningStatsGen --------------------------
(* Histories of three statistics, for replay.                                *)
EXTENDS RunningStats, TLC, Json
CONSTANT Depth
VARIABLES hist, over
Names == {"a", "b", "c"}
Ops == {"one", "batch", "masked", "merge", "reset", "copy", "normalize", "both", "layer", "through", "bad", "report"}
GInit == hist = <<>> /\ over = FALSE
GNext ==
    \/ /\ Len(hist) < Depth /\ UNCHANGED over
       /\ \E op \in Ops, o, p \in Names : hist' = Append(hist, [op |-> op, o |-> o, p |-> p])
    \/ Len(hist) = Depth /\ over' = TRUE /\ UNCHANGED hist
Emit == over => PrintT("@@GEN " \o ToJson(hist))
=============================================================================

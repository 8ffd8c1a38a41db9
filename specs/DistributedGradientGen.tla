---------------------- MODULE DistributedGradientGen ----------------------
(* Requests and completion orders, for replay.                              *)
EXTENDS MCDistributedGradient, TLC, Json
VARIABLE hist
GInit == Init /\ hist = <<>>
GNext ==
    /\ UNCHANGED <<W, how>>
    /\ \E w \in 1..W :
       \/ Take(w) /\ UNCHANGED hist
       \/ \E i \in 1..2 : Sample(w, i) /\ UNCHANGED hist
       \/ Deliver(w, 0) /\ hist' = Append(hist, w)
Emit == AllIn => PrintT("@@GEN " \o ToJson([w |-> W, how |-> how, req |-> req, order |-> hist]))
=============================================================================

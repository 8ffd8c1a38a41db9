--------------------------- MODULE SupervisedGen ---------------------------
EXTENDS Integers, Sequences, TLC, Json
VARIABLES plan, over
Ops == [op : {"evaluate", "again", "single", "draw", "copy", "pickle"}, n : 1..5]
GInit == /\ over = FALSE
         /\ \E size \in 1..7, k \in 1..4, c \in BOOLEAN, w \in {0, 0, 2, 3} :
              plan = [size |-> size, m |-> 0, k |-> k, common |-> c, w |-> w, own |-> FALSE, pieces |-> 0, ops |-> <<>>]
GNext == \/ plan.m = 0 /\ UNCHANGED over /\ \E m \in 1..8, own \in BOOLEAN, p \in 0..3 : plan' = [plan EXCEPT !.m = m, !.own = own, !.pieces = p]
         \/ plan.m > 0 /\ Len(plan.ops) < 6 /\ UNCHANGED over /\ \E o \in Ops : plan' = [plan EXCEPT !.ops = Append(@, o)]
         \/ Len(plan.ops) = 6 /\ ~over /\ over' = TRUE /\ UNCHANGED plan
Emit == over => PrintT("@@GEN " \o ToJson(plan))
=============================================================================

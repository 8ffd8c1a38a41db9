---------------------------- MODULE EpisodesGen ----------------------------
(* Problems, and requests for scores, for replay.                            *)
EXTENDS Episodes, TLC, Json
VARIABLES plan, over
Bonuses == {<<>>} \cup {<<t0, t0 + gap, b>> : t0 \in 0..3, gap \in {0, 1, 2, 5}, b \in {-1, 1, 2, 3}}
Kinds == {"one", "vec", "sims"}
Asked == [op : {"evaluate", "evaluate", "replace", "copy", "agree"}, n : 1..7]
GInit ==
    /\ over = FALSE
    /\ \E e \in 1..3, s \in {0, 0, 1, 2, 6, -3}, k \in Kinds, w \in {0, 2, 3}, most \in 0..4, limit \in {0, 0, 2, 3}, d \in {0, 1, 2, 3}, longest \in {1, 3, 5} :
        plan = [rule |-> [episodes |-> e, shift |-> s, bonus |-> <<>>], kind |-> k, w |-> w, most |-> most, limit |-> limit,
                discrete |-> d = 0, longest |-> longest, asked |-> <<>>]
GNext ==
    \/ /\ Len(plan.asked) = 0 /\ plan.rule.bonus = <<>> /\ UNCHANGED over
       /\ \E b \in Bonuses : plan' = [plan EXCEPT !.rule.bonus = b, !.asked = <<[op |-> "start", n |-> 0]>>]
    \/ /\ Len(plan.asked) \in 1..4 /\ UNCHANGED over
       /\ \E a \in Asked : plan' = [plan EXCEPT !.asked = Append(@, a)]
    \/ Len(plan.asked) = 5 /\ ~over /\ over' = TRUE /\ UNCHANGED plan
Emit == over => PrintT("@@GEN " \o ToJson(plan))
=============================================================================

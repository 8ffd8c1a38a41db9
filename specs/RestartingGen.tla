--------------------------- MODULE RestartingGen ---------------------------
(* Restarting searches and scripts of their generations, for replay.         *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT MaxGens
VARIABLES plan, over
Kinds == {"snes", "xnes", "pgpe", "cem", "cmaes", "pycmaes", "ga", "ssga", "cosyne"}
Rules == {[kind |-> "plain"], [kind |-> "list", sizes |-> <<4, 6, 5>>], [kind |-> "list", sizes |-> <<8, 4>>]}
         \cup {[kind |-> "grow", lim |-> lim, twice |-> t] : lim \in -1..4, t \in 2..6}
Gens == [base : -2..3, odd : {0, 0, 1, 2, 4}, shape : {"same", "one", "half", "rise"}, ended : BOOLEAN]
GInit == /\ over = FALSE
         /\ \E k \in Kinds, sense \in {"min", "max"}, size \in 4..6, extra \in 0..1 :
              plan = [alg |-> k, sense |-> sense, size |-> size, extra |-> extra, rule |-> <<>>, gens |-> <<>>]
GNext == \/ plan.rule = <<>> /\ UNCHANGED over /\ \E kind \in {"plain", "list", "grow", "grow"} : plan' = [plan EXCEPT !.rule = <<kind>>]
         \/ /\ Len(plan.rule) = 1 /\ UNCHANGED over
            /\ \E r \in Rules : r.kind = plan.rule[1] /\ plan' = [plan EXCEPT !.rule = <<r, 0>>]
         \/ Len(plan.rule) = 2 /\ Len(plan.gens) < MaxGens /\ UNCHANGED over /\ \E g \in Gens : plan' = [plan EXCEPT !.gens = Append(@, g)]
         \/ Len(plan.gens) = MaxGens /\ ~over /\ over' = TRUE /\ UNCHANGED plan
Emit == over => PrintT("@@GEN " \o ToJson([plan EXCEPT !.rule = @[1]]))
=============================================================================

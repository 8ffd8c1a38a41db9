------------------------------ MODULE MCGenetic ------------------------------
(* All generations of tiny genetic algorithms with a deterministic fitness.    *)
EXTENDS Genetic, TLC
CONSTANTS N, MaxKids, MaxGen
VARIABLES gen, bestEver
Fit(id) == id % 3
V == 1..4
Row(id) == [id |-> id, ev |-> <<Fit(id)>>]
Configs == {[n |-> N, elitist |-> e, reeval |-> r, pfirst |-> p, senses |-> <<s>>] :
              e \in BOOLEAN, r \in BOOLEAN, p \in BOOLEAN, s \in {"min", "max"}}
Init == /\ \E c \in Configs, ids \in [1..N -> V] : StartGA(c, ids)
        /\ gen = 0 /\ bestEver = 99
RECURSIVE UpTo(_)
UpTo(k) == IF k = 0 THEN {<<>>} ELSE UpTo(k - 1) \cup [1..k -> V]
EvalStep == /\ \/ ~spawned /\ evald = <<>> /\ ParentsNeedEval /\ ParentsFirst
                  /\ Evaluated([i \in 1..Len(pop) |-> Row(pop[i].id)])
               \/ spawned /\ LET want == (IF ParentsNeedEval THEN Ids(pop) ELSE <<>>) \o kids
                                 done == Len(evald)
                             IN done < Len(want) /\ Evaluated([i \in 1..(Len(want) - done) |-> Row(want[done + i])])
            /\ UNCHANGED <<gen, bestEver>>
SpawnStep == SpawnReady /\ (\E k \in UpTo(MaxKids) \ {<<>>} : Spawn(k)) /\ UNCHANGED <<gen, bestEver>>
BestOfPop(p) == CHOOSE v \in {p[i].ev[1] : i \in 1..Len(p)} : \A j \in 1..Len(p) : ~BetterP(cfg.senses[1], p[j].ev[1], v)
EndStep == /\ spawned /\ EvaluatedOk
           /\ \E new \in [1..N -> Elems(Parents \o Children)] :
                SurvivorsOk(new) /\ EndGen(new) /\ bestEver' = BestOfPop(new)
           /\ gen' = gen + 1
Next == gen < MaxGen /\ (EvalStep \/ SpawnStep \/ EndStep)
SizeKept == Len(pop) = N
OwnEvals == ~first => \A i \in 1..N : pop[i].ev = <<Fit(pop[i].id)>>
EliteKept == [][cfg.elitist /\ gen' # gen /\ gen > 0 => ~BetterP(cfg.senses[1], bestEver, bestEver')]_<<gvars, gen, bestEver>>
CanEnd == (spawned /\ EvaluatedOk) => \E new \in [1..N -> Elems(Parents \o Children)] : SurvivorsOk(new)
=============================================================================

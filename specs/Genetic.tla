------------------------------- MODULE Genetic -------------------------------
(* Generations of a genetic algorithm: who is evaluated, who has offspring,   *)
(* who survives. A row is [id |-> name of the decision values, ev |-> its     *)
(* fitnesses]; within one generation the fitness is a function of the id, but *)
(* it may change from generation to generation (noise).                       *)
EXTENDS Pareto

VARIABLES cfg,     \* [n, elitist, reeval, pfirst, senses]
          pop,     \* sequence of rows
          first,   \* no generation has been completed
          evald,   \* rows evaluated in this generation so far
          kids,    \* ids of the offspring of this generation
          spawned  \* the offspring have been made
gvars == <<cfg, pop, first, evald, kids, spawned>>

Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
Elems(q) == {q[i] : i \in 1..Len(q)}
SameBag(p, q) == Len(p) = Len(q) /\ \A x \in Elems(p) : Count(p, x) = Count(q, x)
SubBag(p, q) == \A x \in Elems(p) : Count(p, x) <= Count(q, x)
Ids(rows) == [i \in 1..Len(rows) |-> rows[i].id]
\* rows of q left over when the sub-bag p is taken away
Rest(p, q) == {x \in Elems(q) : Count(q, x) > Count(p, x)}
RECURSIVE TakeAway(_, _, _)
\* the sequence q (up to position k) without as many of each element as p has
TakeAway(p, q, k) ==
  IF k = 0 THEN <<>>
  ELSE TakeAway(p, q, k - 1) \o
       (IF Cardinality({j \in 1..k : q[j] = q[k]}) > Count(p, q[k]) THEN <<q[k]>> ELSE <<>>)

\* the best |chosen| of the candidates: nobody left out beats anybody chosen
BestOf(senses, chosen, cand) ==
  /\ SubBag(chosen, cand)
  /\ IF Len(senses) = 1
     THEN \A x \in Elems(chosen), y \in Rest(chosen, cand) : ~BetterP(senses[1], y.ev[1], x.ev[1])
     ELSE LET f == [i \in 1..Len(cand) |-> cand[i].ev]  fr == Fronts(senses, f)
              R(x) == RankIn(fr, CHOOSE i \in 1..Len(cand) : cand[i] = x)
          IN \A x \in Elems(chosen), y \in Rest(chosen, cand) : R(x) <= R(y)

EvOf(id) == (CHOOSE i \in 1..Len(evald) : evald[i].id = id)
Fresh(ids) == [i \in 1..Len(ids) |-> evald[EvOf(ids[i])]]
ParentsNeedEval == cfg.reeval \/ first
ParentsFirst == ~cfg.reeval \/ cfg.pfirst

StartGA(c, ids) == cfg = c /\ pop = [i \in 1..Len(ids) |-> [id |-> ids[i], ev |-> <<>>]]
                   /\ first = TRUE /\ evald = <<>> /\ kids = <<>> /\ spawned = FALSE
Evaluated(rows) == evald' = evald \o rows /\ UNCHANGED <<cfg, pop, first, kids, spawned>>

\* what must have been evaluated before the offspring are made
SpawnReady == IF ParentsNeedEval /\ ParentsFirst THEN SameBag(Ids(evald), Ids(pop)) ELSE evald = <<>>
Spawn(ids) == ~spawned /\ kids' = ids /\ spawned' = TRUE /\ UNCHANGED <<cfg, pop, first, evald>>

\* exactly these are evaluated in a generation
EvaluatedOk == SameBag(Ids(evald), (IF ParentsNeedEval THEN Ids(pop) ELSE <<>>) \o kids)
Parents == IF ParentsNeedEval THEN Fresh(Ids(pop)) ELSE pop
Children == Fresh(kids)
SurvivorsOk(new) ==
  IF cfg.elitist THEN BestOf(cfg.senses, new, Parents \o Children)
  ELSE IF Len(kids) >= cfg.n THEN BestOf(cfg.senses, new, Children)
  ELSE SubBag(Children, new) /\ BestOf(cfg.senses, TakeAway(Children, new, Len(new)), Parents)
EndGen(new) == spawned /\ pop' = new /\ first' = FALSE /\ evald' = <<>> /\ kids' = <<>> /\ spawned' = FALSE /\ UNCHANGED cfg

\* ---- a cooperative-synapse generation: everything is evaluated in one request
CosyneOk(c, old, req, new) ==
  /\ Len(req) = c.elites + c.children + c.n
  /\ BestOf(c.senses, new, req)
  /\ Len(new) = c.n
  /\ \E T \in SUBSET (1..Len(old)) :
       /\ Cardinality(T) = c.elites
       /\ \A i \in T, j \in (1..Len(old)) \ T : ~BetterP(c.senses[1], old[j].ev[1], old[i].ev[1])
       /\ \A i \in T : Cardinality({j \in T : old[j].id = old[i].id}) <= Count(Ids(req), old[i].id)
=============================================================================

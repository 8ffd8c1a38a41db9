---------------------------- MODULE GeneticTrace ----------------------------
EXTENDS Genetic, TraceBase
TInit == StartTrace /\ StartGA(Cfg.ga, Cfg.ids)
Same == UNCHANGED gvars
TNext ==
  /\ More /\ Consume
  /\ \/ Ev.op = "evaluate" /\ Evaluated(Ev.rows)
     \/ Ev.op = "spawn" /\
          /\ Chk("one generation of offspring", ~spawned)
          /\ Chk("parents are evaluated before they have offspring, if they are to be", SpawnReady)
          /\ Chk("offspring come from the population", Ev.known => SameBag(Ev.inp, Ids(pop)))
          /\ Spawn(Ev.ids)
     \/ Ev.op = "generation" /\
          /\ Chk("the solutions called for are evaluated, once each", EvaluatedOk)
          /\ Chk("population size", Len(Ev.pop) = cfg.n)
          /\ Chk("survivors", SurvivorsOk(Ev.pop))
          /\ EndGen(Ev.pop)
     \/ Ev.op = "cosyne_first" /\
          /\ Chk("the initial population is evaluated first", SameBag(Ids(Ev.rows), Ids(pop)))
          /\ pop' = Ev.rows /\ UNCHANGED <<cfg, first, evald, kids, spawned>>
     \/ Ev.op = "cosyne" /\
          /\ Chk("a generation of the search", CosyneOk(cfg, pop, Ev.rows, Ev.pop))
          /\ pop' = Ev.pop /\ UNCHANGED <<cfg, first, evald, kids, spawned>>
     \/ Ev.op = "refused" /\ Chk("a setting without meaning is refused", Ev.refused) /\ Same
=============================================================================

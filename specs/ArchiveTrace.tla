---------------------------- MODULE ArchiveTrace ----------------------------
EXTENDS Archive, TraceBase
TInit == StartTrace /\ filled = [c \in 1..Len(Cfg.cells) |-> FALSE]
         /\ StartGA(Cfg.ga, Cfg.ids)
TNext ==
  /\ More /\ Consume
  /\ \/ Ev.op = "evaluate" /\ Evaluated(Ev.rows) /\ UNCHANGED filled
     \/ Ev.op = "spawn" /\
          /\ Chk("parents are evaluated before they have offspring, if they are to be", SpawnReady)
          /\ Chk("offspring come from the archive", SameBag(Ev.inp, Ids(pop)))
          /\ Spawn(Ev.ids) /\ UNCHANGED filled
     \/ Ev.op = "generation" /\
          /\ Chk("the solutions called for are evaluated, once each", EvaluatedOk)
          /\ Chk("each cell holds the best suitable solution", ArchiveOk(Cfg.cells, Ev.pop, Ev.filled))
          /\ Chk("nothing is lost with a deterministic fitness", Cfg.noise \/ first \/
                  \A c \in 1..Len(filled) : filled[c] => Ev.filled[c] /\ ~BetterP(cfg.senses[1], pop[c].ev[1], Ev.pop[c].ev[1]))
          /\ EndGen(Ev.pop) /\ filled' = Ev.filled
     \/ Ev.op = "grid" /\
          /\ Chk("the grid tiles the feature space", GridTiles(Ev.cells, Ev.bins))
          /\ Chk("the requested borders", Ev.exact => \A k \in 1..Len(Ev.bins) : Proj(Ev.cells, k) = Intervals(Ev.lb[k], Ev.ub[k], Ev.bins[k]))
          /\ Chk("the requested type", Ev.dtype_kept)
          /\ UNCHANGED avars
=============================================================================

--------------------------- MODULE BestWorstTrace ---------------------------
EXTENDS BestWorst, TraceBase

TInit == StartTrace /\ Start(Cfg.senses)
Same == UNCHANGED <<senses, best, worst, seen, given>>

EvalOk ==
  /\ Chk("best per objective", \A i \in Objs : Ev.best[i] \in NewBest(i, Rows(Ev.rows)))
  /\ Chk("worst per objective", \A i \in Objs : Ev.worst[i] \in NewWorst(i, Rows(Ev.rows)))
  /\ Chk("reported best evaluation", Ev.best_eval # <<>> => Ev.best[1] # <<>> /\ Ev.best_eval[1] = Ev.best[1][1].ev[1])
  /\ Chk("reported worst evaluation", Ev.worst_eval # <<>> => Ev.worst[1] # <<>> /\ Ev.worst_eval[1] = Ev.worst[1][1].ev[1])
  /\ Chk("scalar reports are present", Len(senses) = 1 /\ Ev.best[1] # <<>> => Ev.best_eval # <<>> /\ Ev.worst_eval # <<>>)
  /\ Evaluate(Rows(Ev.rows), Ev.best, Ev.worst)

PopOk == \A k \in 1..Len(Ev.pops) :
           LET p == Ev.pops[k] IN
           /\ Chk("population best", Ranked(p.obj, Rows(Ev.pop)) # {} => PopBestOk(p.obj, Ev.pop, p.best))
           /\ Chk("population best evaluation", p.best_eval = p.best.ev[p.obj])
           /\ Chk("mean evaluation", p.exact => MeanOk(p.obj, Ev.pop, p.mean, 64))
           /\ Chk("median evaluation", MedianOk(p.obj, Ev.pop, p.median))

TNext ==
  /\ More /\ Consume
  /\ \/ Ev.op = "evaluate" /\ EvalOk
     \/ Ev.op = "step" /\ PopOk /\ EvalOk
     \/ Ev.op = "first_step" /\ EvalOk
     \/ Ev.op = "status" /\ Chk("the report persists", Ev.best = best /\ Ev.worst = worst) /\ Same
     \/ Ev.op = "held" /\ Chk("a report already handed out is unchanged", Ev.best = given[Ev.k].best /\ Ev.worst = given[Ev.k].worst) /\ Same
     \/ Ev.op = "other" /\ Same
=============================================================================

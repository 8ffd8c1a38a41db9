-------------------------- MODULE RestartingTrace --------------------------
EXTENDS Restarting, TraceBase
Sign == IF Cfg.sense = "max" THEN 1 ELSE -1
rule == Cfg.rule
\* an inner search was built: with its settings, on the problem of the outer search
Built(b) ==
    /\ Chk("the inner search has the same problem", b.same)
    /\ Chk("settings which the rule does not touch stay", b.others)
TInit == /\ StartTrace /\ Start(IF Cfg.rule.kind = "list" THEN Cfg.rule.sizes[1] ELSE Cfg.size)

TNext ==
    /\ More /\ Consume
    /\ \/ /\ Ev.op = "start" /\ UNCHANGED rvars
          /\ Chk("one inner search at first", Len(Ev.built) = 1) /\ Built(Ev.built[1])
          /\ Chk("first size", Ev.built[1].size = pop)
          /\ Chk("first counters", Ev.outer = 0 /\ Ev.inner = 0 /\ Ev.starts = 1)
       \/ /\ Ev.op = "step"
          /\ LET again == Len(Ev.built) > 0 IN
             /\ Chk("size of the population", Len(Ev.fits) = pop)
             /\ Chk("one generation of the inner search", Ev.made = inner + 1)
             /\ Chk("restarted when the rule says so", Must(rule, Ev.ended, Ev.fits) => again)
             /\ Chk("restarted only when the rule says so", again => May(rule, Ev.ended, Ev.fits))
             /\ Chk("restarted once", Len(Ev.built) <= 1)
             /\ Step(rule, Ev.fits, Ev.ended, again, {Sign * Ev.seen[i] : i \in 1..Len(Ev.seen)})
             /\ (IF again THEN Built(Ev.built[1]) /\ Chk("size after the restart", Ev.built[1].size = pop') ELSE TRUE)
             /\ Chk("same inner search unless restarted", Ev.changed = again)
          /\ Chk("outer counter", Ev.outer = outer' /\ Ev.iter = outer')
          /\ Chk("inner counter", Ev.inner = inner' /\ Ev.shown = inner')
          /\ Chk("number of starts", Ev.starts = starts' /\ Ev.reported = starts')
          /\ Chk("best so far", Sign * Ev.best = best')
          /\ Chk("ended is reported of the present inner search", Ev.over = FALSE \/ Ev.built = <<>>)
          /\ Chk("the inner search works as it does alone", Ev.look = Ev.alone)
       \/ /\ Ev.op = "kept" /\ UNCHANGED rvars
          /\ Chk("what the caller gave is unchanged", Ev.kept)
=============================================================================

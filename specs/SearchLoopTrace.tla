-------------------------- MODULE SearchLoopTrace --------------------------
EXTENDS SearchLoop, TraceBase
TInit == StartTrace /\ Start
Same == UNCHANGED loop
\* generations of algorithms that do not note them themselves are seen through their evaluations only
Internal == (~Cfg.noted /\ GenBegin) \/ EvalReturn \/ (~Cfg.noted /\ GenEnd) \/ Merge \/ RunFinish
Seen ==
  \/ Ev.op = "register" /\ Register(Ev.h, Ev.x)
  \/ Ev.op = "unregister" /\ Unregister(Ev.h, Ev.i)
  \/ Ev.op = "run_begin" /\ RunBegin(Ev.n)
  \/ Ev.op = "step_begin" /\ StepBegin
  \/ Ev.op = "before" /\ Before(Ev.x) /\ Chk("the status before a step is the previous one", StatusIs(stat, Ev.st))
  \/ Ev.op = "gen_begin" /\ GenBegin /\ Chk("generation counter during a generation", Ev.count = steps)
  \/ Ev.op = "before_eval" /\ BeforeEval(Ev.x)
  \/ Ev.op = "eval" /\ EvalDone
  \/ Ev.op = "after_eval" /\ AfterEval(Ev.x, Ev.m)
  \/ Ev.op = "gen_end" /\ GenEnd /\ Chk("generation counter during a generation", Ev.count = steps)
  \/ Ev.op = "after" /\ After(Ev.x, Ev.m) /\ Chk("generation counter during after-step callbacks", Ev.count = steps)
                      /\ Chk("status seen by after-step callbacks", StatusIs(pstat, Ev.st))
  \/ Ev.op = "log" /\ Log(Ev.x) /\ Chk("status given to the log callback", StatusIs(stat, Ev.st))
  \/ Ev.op = "step_end" /\ StepEnd /\ Chk("generation counter", Ev.count = steps) /\ Chk("status after the step", StatusIs(stat, Ev.st))
  \/ Ev.op = "end" /\ End(Ev.x) /\ Chk("status given to the end-of-run callback", StatusIs(stat, Ev.st))
  \/ Ev.op = "run_end" /\ RunEnd /\ Chk("generation counter after the run", Ev.count = steps)
  \/ Ev.op = "held" /\ Chk("a status given earlier is unchanged", Ev.then = Ev.now /\ Ev.parts = Ev.parts_now) /\ Same
\* internal moves happen between recorded events
TNext == /\ More /\ UNCHANGED <<funcs, hargs, hkw>>
         /\ \/ Consume /\ Seen
            \/ UNCHANGED <<tid, l>> /\ Internal
=============================================================================

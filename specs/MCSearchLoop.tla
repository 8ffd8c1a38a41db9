---------------------------- MODULE MCSearchLoop ----------------------------
EXTENDS SearchLoop
CONSTANTS MaxSteps, MaxCbs
VARIABLES fired,      \* number of calls per hook since the last step began
          logs,       \* log calls per generation of the first log callback: sequence of step numbers
          since       \* generation counter when the first log callback was registered
mvars == <<loop, funcs, hargs, hkw, fired, logs, since>>
Zero == [h \in HookNames |-> 0]
Init == Start /\ fired = Zero /\ logs = <<>> /\ since = -1
Maps == {<<>>, <<<<"a", steps>>>>, <<<<"b", 7>>>>}
Keep == UNCHANGED <<funcs, hargs, hkw>>
Fire(h) == fired' = [fired EXCEPT ![h] = @ + 1]
K2 == UNCHANGED <<logs, since>>
Next == Keep /\
  \/ \E h \in HookNames : phase = "idle" /\ Len(cbs[h]) < MaxCbs /\ Register(h, Len(cbs[h]) + 1) /\ fired' = fired /\ logs' = logs
       /\ since' = IF h = "log" /\ since = -1 THEN steps ELSE since
  \/ \E n \in 0..2 : steps + n <= MaxSteps /\ RunBegin(n) /\ fired' = fired /\ K2
  \/ steps < MaxSteps /\ StepBegin /\ fired' = Zero /\ K2
  \/ \E x \in 1..MaxCbs : Before(x) /\ Fire("before") /\ K2
  \/ GenBegin /\ fired' = fired /\ K2
  \/ \E x \in 1..MaxCbs : BeforeEval(x) /\ fired' = fired /\ K2
  \/ EvalDone /\ fired' = fired /\ K2
  \/ \E x \in 1..MaxCbs, m \in Maps : AfterEval(x, m) /\ fired' = fired /\ K2
  \/ EvalReturn /\ fired' = fired /\ K2
  \/ GenEnd /\ fired' = fired /\ K2
  \/ \E x \in 1..MaxCbs, m \in Maps : After(x, m) /\ Fire("after") /\ K2
  \/ Merge /\ fired' = fired /\ K2
  \/ \E x \in 1..MaxCbs : Log(x) /\ Fire("log") /\ since' = since /\ logs' = IF x = 1 THEN Append(logs, steps) ELSE logs
  \/ StepEnd /\ fired' = fired /\ K2
  \/ RunFinish /\ fired' = Zero /\ K2
  \/ \E x \in 1..MaxCbs : End(x) /\ Fire("end") /\ K2
  \/ RunEnd /\ fired' = fired /\ K2
Spec == Init /\ [][Next]_mvars

CounterIsGenerations == steps = gens
\* after phases begin only after exactly one generation; log after all of the after-step callbacks
Order == /\ phase = "gen" => fired["after"] = 0 /\ fired["log"] = 0 /\ fired["before"] = Len(cbs["before"])
         /\ phase = "log" => fired["after"] = Len(cbs["after"])
         /\ phase = "end" => fired["before"] = 0 /\ left = 0
\* the first log callback has been told of every generation since it was registered, once, in order
Told == phase = "idle" /\ since >= 0 => logs = [i \in 1..(steps - since) |-> since + i]
\* a status item comes from this generation's callbacks or the problem's last report
Fresh == phase = "log" => \A k \in Keys(stat) : k \in {"a", "b"} /\ (k = "a" => Val(stat, k) <= steps)
OneGeneration == [][gens' # gens => gens' = gens + 1 /\ phase = "gen" /\ phase' = "after"]_mvars
=============================================================================

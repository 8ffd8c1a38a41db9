----------------------------- MODULE SearchLoop -----------------------------
(* The protocol of a search: callbacks, generations, status, runs.           *)
EXTENDS Hooks

VARIABLES phase,   \* where inside a step the search is
          pos,     \* next callback of the current phase
          steps,   \* generation counter
          gens,    \* generations actually performed
          left,    \* steps left in the current run; -1 outside of a run
          cbs,     \* the registered callbacks of every hook
          acc,     \* items accumulated by the current phase
          pstat,   \* items reported by the problem after its last evaluation
          stat     \* status items of the last finished generation
loop == <<phase, pos, steps, gens, left, cbs, acc, pstat, stat>>
HookNames == {"before", "after", "log", "end", "before_eval", "after_eval"}

Start == /\ phase = "idle" /\ pos = 1 /\ steps = 0 /\ gens = 0 /\ left = -1
         /\ cbs = [h \in HookNames |-> <<>>] /\ acc = <<>> /\ pstat = <<>> /\ stat = <<>>
         /\ funcs = <<>> /\ hargs = <<>> /\ hkw = <<>>

Register(h, x) == /\ cbs' = [cbs EXCEPT ![h] = Append(@, x)]
                  /\ UNCHANGED <<phase, pos, steps, gens, left, acc, pstat, stat>>
Unregister(h, i) == /\ phase = "idle" /\ i \in 1..Len(cbs[h])
                    /\ cbs' = [cbs EXCEPT ![h] = Without(@, i)]
                    /\ UNCHANGED <<phase, pos, steps, gens, left, acc, pstat, stat>>

RunBegin(n) == /\ phase = "idle" /\ left = -1 /\ left' = n
               /\ UNCHANGED <<phase, pos, steps, gens, cbs, acc, pstat, stat>>
StepBegin == /\ phase = "idle" /\ left # 0
             /\ phase' = "before" /\ pos' = 1
             /\ UNCHANGED <<steps, gens, left, cbs, acc, pstat, stat>>
Before(x) == /\ phase = "before" /\ pos <= Len(cbs["before"]) /\ x = cbs["before"][pos]
             /\ pos' = pos + 1
             /\ UNCHANGED <<phase, steps, gens, left, cbs, acc, pstat, stat>>
GenBegin == /\ phase = "before" /\ pos = Len(cbs["before"]) + 1
            /\ phase' = "gen" /\ pos' = 1
            /\ UNCHANGED <<steps, gens, left, cbs, acc, pstat, stat>>
\* one evaluation request inside the generation, on one batch
BeforeEval(x) == /\ phase \in {"gen", "evaling"} /\ pos <= Len(cbs["before_eval"]) /\ x = cbs["before_eval"][pos]
                 /\ phase' = "evaling" /\ pos' = pos + 1
                 /\ UNCHANGED <<steps, gens, left, cbs, acc, pstat, stat>>
EvalDone == /\ phase \in {"gen", "evaling"} /\ pos = Len(cbs["before_eval"]) + 1
            /\ phase' = "evaled" /\ pos' = 1 /\ acc' = <<>>
            /\ UNCHANGED <<steps, gens, left, cbs, pstat, stat>>
AfterEval(x, m) == /\ phase = "evaled" /\ pos <= Len(cbs["after_eval"]) /\ x = cbs["after_eval"][pos]
                   /\ pos' = pos + 1 /\ acc' = Update(acc, m)
                   /\ UNCHANGED <<phase, steps, gens, left, cbs, pstat, stat>>
\* the evaluation request returns
EvalReturn == /\ phase = "evaled" /\ pos = Len(cbs["after_eval"]) + 1
              /\ pstat' = acc /\ phase' = "gen" /\ pos' = 1
              /\ UNCHANGED <<steps, gens, left, cbs, acc, stat>>
GenEnd == /\ phase = "gen" /\ pos = 1
          /\ gens' = gens + 1 /\ steps' = steps + 1
          /\ phase' = "after" /\ pos' = 1 /\ acc' = pstat
          /\ UNCHANGED <<left, cbs, pstat, stat>>
After(x, m) == /\ phase = "after" /\ pos <= Len(cbs["after"]) /\ x = cbs["after"][pos]
               /\ pos' = pos + 1 /\ acc' = Update(acc, m)
               /\ UNCHANGED <<phase, steps, gens, left, cbs, pstat, stat>>
Merge == /\ phase = "after" /\ pos = Len(cbs["after"]) + 1
         /\ stat' = acc /\ phase' = "log" /\ pos' = 1
         /\ UNCHANGED <<steps, gens, left, cbs, acc, pstat>>
Log(x) == /\ phase = "log" /\ pos <= Len(cbs["log"]) /\ x = cbs["log"][pos]
          /\ pos' = pos + 1
          /\ UNCHANGED <<phase, steps, gens, left, cbs, acc, pstat, stat>>
StepEnd == /\ phase = "log" /\ pos = Len(cbs["log"]) + 1
           /\ phase' = "idle" /\ pos' = 1
           /\ left' = IF left > 0 THEN left - 1 ELSE left
           /\ UNCHANGED <<steps, gens, cbs, acc, pstat, stat>>
RunFinish == /\ phase = "idle" /\ left = 0
             /\ phase' = "end" /\ pos' = 1
             /\ UNCHANGED <<steps, gens, left, cbs, acc, pstat, stat>>
End(x) == /\ phase = "end" /\ pos <= Len(cbs["end"]) /\ x = cbs["end"][pos]
          /\ pos' = pos + 1
          /\ UNCHANGED <<phase, steps, gens, left, cbs, acc, pstat, stat>>
RunEnd == /\ phase = "end" /\ pos = Len(cbs["end"]) + 1
          /\ phase' = "idle" /\ pos' = 1 /\ left' = -1
          /\ UNCHANGED <<steps, gens, cbs, acc, pstat, stat>>

\* value of a status key; "iter" and "g" (a lazily computed item) follow the counters
Absent == -999
StatusVal(m, k) == IF k \in Keys(m) THEN Val(m, k)
                   ELSE IF k = "iter" THEN (IF steps = 0 THEN Absent ELSE steps)
                   ELSE IF k = "g" THEN 1000 + gens
                   ELSE Absent
StatusIs(m, s) == \A i \in 1..Len(s) : s[i][2] = StatusVal(m, s[i][1])
=============================================================================

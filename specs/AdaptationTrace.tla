--------------------------- MODULE AdaptationTrace ---------------------------
EXTENDS Adaptation, TraceBase
VARIABLES o,        \* state of the optimizer: settings, velocity or moments
          total, made
vars == <<tid, l, o, total, made>>
TInit == StartTrace /\ o = [kind |-> "none"] /\ total = 0 /\ made = 0

\* a direct request for a limited change (scale 64: exact)
Limit ==
  /\ Ev.op = "limit" /\ UNCHANGED <<o, total, made>>
  /\ Chk("arguments are kept", Ev.kept)
  /\ Chk("change is limited", Len(Ev.out) = Len(Ev.old) /\ \A i \in 1..Len(Ev.old) :
        Low(Ev.old[i], Ev.lo[i], Ev.ch[i]) <= High(Ev.old[i], Ev.hi[i], Ev.ch[i]) => Ev.out[i] = Limited(Ev.old[i], Ev.target[i], Ev.lo[i], Ev.hi[i], Ev.ch[i]))
\* one generation of a search (scale 65536, rounded)
Tol(x) == 4 + Abs(x) \div 20000
Sigma ==
  /\ Ev.op = "sigma" /\ UNCHANGED <<o, total, made>>
  /\ \A i \in 1..Len(Ev.new) :
       /\ Chk("deviation stays within its limits", Ev.new[i] >= Ev.lo[i] - Tol(Ev.lo[i]) /\ (Ev.hi[i] = HUGE \/ Ev.new[i] <= Ev.hi[i] + Tol(Ev.hi[i])))
       /\ Chk("deviation changes within its limit", ChangeOk(Ev.old[i], Ev.new[i], Ev.ch[i], Tol(Ev.old[i])))
       /\ Chk("deviation follows its gradient within the limits", ~Ev.known \/ Abs(Ev.target[i]) > 100000000 \/
            Abs(Ev.new[i] - Limited(Ev.old[i], Ev.target[i], Ev.lo[i], Ev.hi[i], Ev.ch[i])) <= Tol(Ev.new[i]) + Abs(Ev.target[i]) \div 2000)
Speed ==
  /\ Ev.op = "speed" /\ UNCHANGED <<o, total, made>>
  /\ Chk("centre moves within the maximum speed", Norm(Ev.moved) <= Ev.speed + 6)

Zeros(n) == [i \in 1..n |-> 0]
Make ==
  /\ Ev.op = "make" /\ UNCHANGED <<total, made>>
  /\ o' = CASE Ev.kind = "clipup" -> [kind |-> "clipup", v |-> Zeros(Ev.n), momentum |-> Ev.momentum, stepsize |-> Ev.stepsize, speed |-> IF Ev.speed = HUGE THEN 2 * Ev.stepsize ELSE Ev.speed]
            [] Ev.kind = "sgd" -> [kind |-> "sgd", v |-> Zeros(Ev.n), first |-> TRUE, mom |-> Ev.mom, damp |-> Ev.damp, nesterov |-> Ev.nesterov]
            [] Ev.kind = "adam" -> [kind |-> "adam", m |-> Zeros(Ev.n), v |-> Zeros(Ev.n), t |-> 0]
Step ==
  /\ Ev.op = "step" /\ UNCHANGED <<total, made>>
  /\ Chk("gradient is kept", Ev.kept)
  /\ CASE o.kind = "clipup" -> Chk("step of the clipping optimizer", ClipUpOk(o.v, o.momentum, o.stepsize, o.speed, Ev.g, Ev.out)) /\ o' = [o EXCEPT !.v = Ev.out]
       [] o.kind = "sgd" -> LET b == SgdBuf(o.first, o.v, Ev.g, o.mom, o.damp) IN
            Chk("step of gradient ascent", Ev.out = SgdStep(b, Ev.g, o.mom, o.nesterov)) /\ o' = [o EXCEPT !.v = b, !.first = FALSE]
       [] o.kind = "adam" -> LET t == o.t + 1  m == AdamM(o.m, Ev.g, t)  v == AdamV(o.v, Ev.g, t) IN
            Chk("step of adam", AdamOk(m, v, t, Ev.out)) /\ o' = [o EXCEPT !.m = m, !.v = v, !.t = t]
\* the settings of the clipping optimizer are changed; values which make no sense are refused
Sensible(name, value) == value >= 0 /\ (name = "momentum" => value <= 8)
Set ==
  /\ Ev.op = "set" /\ UNCHANGED <<total, made>>
  /\ Chk("only sensible settings are accepted", Ev.refused = (~Sensible(Ev.name, Ev.value)))
  /\ o' = IF Ev.refused THEN o ELSE
          IF Ev.name = "momentum" THEN [o EXCEPT !.momentum = Ev.value] ELSE
          IF Ev.name = "lr" THEN [o EXCEPT !.stepsize = Ev.value] ELSE [o EXCEPT !.speed = Ev.value]
  /\ Chk("settings are reported", o'.momentum = Ev.now[1] /\ o'.stepsize = Ev.now[2] /\ o'.speed = Ev.now[3])

\* the growth of a population
Sampled ==
  /\ Ev.op = "sampled" /\ UNCHANGED o
  /\ Chk("population grows only while needed", Grow(total, made, Cfg.budget, Cfg.most))
  /\ Chk("population grows by its configured size", Ev.n = Cfg.pop)
  /\ total' = total + Ev.n /\ made' = made + Ev.made
Generation ==
  /\ Ev.op = "generation" /\ UNCHANGED o
  /\ Chk("population has grown enough", ~Grow(total, made, Cfg.budget, Cfg.most))
  /\ Chk("population holds all that was sampled", Ev.size = total)
  /\ total' = 0 /\ made' = 0
TNext == More /\ Consume /\ (Limit \/ Sigma \/ Speed \/ Make \/ Step \/ Set \/ Sampled \/ Generation)
=============================================================================

----------------------------- MODULE HooksTrace -----------------------------
EXTENDS Hooks, TraceBase
TInit == StartTrace /\ funcs = Cfg.funcs /\ hargs = Cfg.args /\ hkw = Cfg.kw

\* negative places count from the end; places outside are the nearest ones
Place(i) == LET n == Len(funcs)
                j == IF i < 0 THEN n + i ELSE i
            IN 1 + (IF j < 0 THEN 0 ELSE IF j > n THEN n ELSE j)

\* Ev.rets: what each registered callback would return, in the order of the list
CallOk ==
  LET acc == Accumulate([t |-> "none"], Ev.rets)
      n == Called([t |-> "none"], Ev.rets)
      want == IF acc.t = "error" THEN acc
              ELSE IF Ev.how = "dict" THEN (IF acc.t = "none" THEN [t |-> "dict", m |-> <<>>] ELSE IF acc.t = "list" THEN [t |-> "error"] ELSE acc)
              ELSE IF Ev.how = "seq" THEN (IF acc.t = "none" THEN [t |-> "list", q |-> <<>>] ELSE IF acc.t = "dict" THEN [t |-> "error"] ELSE acc)
              ELSE acc
  IN /\ Chk("which callbacks are called, in which order", [i \in 1..Len(Ev.calls) |-> Ev.calls[i].id] = SubSeq(funcs, 1, n))
     /\ Chk("positional arguments", \A i \in 1..Len(Ev.calls) : Ev.calls[i].args = hargs \o Ev.args)
     /\ Chk("keyword arguments", \A i \in 1..Len(Ev.calls) : AsSet(Ev.calls[i].kw) = AsSet(Update(hkw, Ev.kw)))
     /\ Chk("accumulated result", SameResult(want, Ev.res))
     /\ Chk("returned items are left as they were", Ev.intact)
     /\ UNCHANGED <<funcs, hargs, hkw>>

TNext ==
  /\ More /\ Consume
  /\ \/ Ev.op = "append" /\ DoAppend(Ev.x)
     \/ Ev.op = "insert" /\ DoInsert(Place(Ev.i), Ev.x)
     \/ Ev.op = "delete" /\ DoDelete(Ev.i)
     \/ Ev.op = "set" /\ DoSet(Ev.i, Ev.x)
     \/ Ev.op = "extend" /\ DoExtend(Ev.q)
     \/ Ev.op = "reverse" /\ DoReverse
     \/ Ev.op = "slice" /\ DoSlice(Ev.a, Ev.b)
     \/ Ev.op = "arg" /\ DoArg(Ev.v)
     \/ Ev.op = "kw" /\ DoKw(Ev.k, Ev.v)
     \/ Ev.op = "call" /\ CallOk
  /\ Chk("contents of the hook", Ev.funcs = funcs')
=============================================================================

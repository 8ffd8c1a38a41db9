---------------------------- MODULE BatchesTrace ----------------------------
EXTENDS Batches, TraceBase

TInit == StartTrace /\ cfg = Cfg /\ stores = <<>> /\ hs = <<>>

P1(q) == [k \in 1..Len(q) |-> q[k] + 1]     \* recorded positions start at 0

OneOf ==
  \/ Ev.op = "create" /\ Create(Ev.vals)
  \/ Ev.op = "set_values" /\ SetValues(Ev.h, P1(Ev.ps), Ev.vals)
  \/ Ev.op = "access_values" /\ AccessValues(Ev.h, Ev.keep, P1(Ev.ps), Ev.vals)
  \/ Ev.op = "set_evals" /\ SetEvals(Ev.h, P1(Ev.ps), Ev.evs)
  \/ Ev.op = "forget_evals" /\ ForgetEvals(Ev.h, P1(Ev.ps))
  \/ Ev.op = "evaluate" /\ Evaluate(Ev.h)
  \/ Ev.op = "view" /\ View(Ev.h, P1(Ev.ps))
  \/ Ev.op = "split" /\ Chk("pieces of a split", SplitSizesOk(Size(Ev.h), [j \in 1..Len(Ev.parts) |-> P1(Ev.parts[j])], Ev.num, Ev.maxsize))
                     /\ Views(Ev.h, [j \in 1..Len(Ev.parts) |-> P1(Ev.parts[j])])
  \/ Ev.op = "copy" /\ Copy(Ev.h, P1(Ev.ps))
  \/ Ev.op = "concat" /\ Concat(Ev.q)
  \/ Ev.op = "read" /\ NoChange
  \/ Ev.op = "forbidden_write" /\ Chk("a read-only tensor refuses modification", Ev.refused) /\ NoChange
  \/ Ev.op = "bad_index" /\ Chk("an index out of range is refused", Ev.refused) /\ NoChange
  \/ Ev.op = "is_evaluated" /\ Chk("is_evaluated", Ev.res = Evaluated(EvalsOf(stores, hs[Ev.h])[1])) /\ NoChange

TNext == /\ More /\ Consume /\ cfg' = cfg
         /\ Chk("the call succeeds", Ev.exc = "")
         /\ OneOf
         /\ Chk("number of handles", Len(Ev.obs) = Len(hs'))
         /\ Chk("values seen through every handle", \A h \in 1..Len(hs') : Ev.obs[h].v = ValsOf(stores', hs'[h]))
         /\ Chk("evaluations seen through every handle", \A h \in 1..Len(hs') : Ev.obs[h].e = EvalsOf(stores', hs'[h]))
=============================================================================

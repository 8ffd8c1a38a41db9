------------------------ MODULE FunctionalSearchTrace ------------------------
EXTENDS FunctionalSearch, TraceBase

TInit == StartTrace /\ Start
Lanes == 0..(Prod(Cfg.lead) - 1)
At(k) == Unravel(Cfg.lead, k)
Look == Chk("what was given out earlier is unchanged", Unchanged(Ev.seen))

AskOk ==
  LET question == <<states[Ev.s], Ev.question>>
      centre == Ev.args[1]
      rows(k) == LET p == ItemAt(Ev.pop, At(k), Cfg.length) IN [r \in 1..Cfg.n |-> SubSeq(p, (r - 1) * Cfg.length + 1, r * Cfg.length)]
  IN
  /\ Chk("the same question has the same answer", Consistent(question, Ev.value))
  /\ Chk("type of the samples", Ev.dtype = Cfg.dtype)
  /\ Chk("shape of the samples", Ev.pop.shape = CommonLead(Ev.args) \o <<Cfg.n, Cfg.length>>)
  /\ Chk("samples of a search are around its own centre, as wide as its own deviations",
         \A k \in Lanes : Around(rows(k), ItemAt(centre, At(k), Cfg.length), ItemAt(Ev.args[2], At(k), Cfg.length), Cfg.tol))
  /\ Chk("mirrored pairs", Cfg.symmetric => \A k \in Lanes : Mirrored(rows(k), ItemAt(centre, At(k), Cfg.length), Cfg.tol))
  /\ Chk("the searches of a batch draw independently", \A i, j \in 1..Len(Ev.noise) : i # j => Ev.noise[i] # Ev.noise[j])
  /\ Answered(question, Ev.value) /\ Given(Ev.name, Ev.value)
CentreOk ==
  /\ Chk("asking an optimizer gives its centre", Ev.pop.shape = Ev.args[1].shape /\ Ev.pop.data = Ev.args[1].data)
  /\ Chk("type of the centre", Ev.dtype = Cfg.dtype)
  /\ UNCHANGED <<states, answers>>
TellOk ==
  LET question == <<states[Ev.s], Ev.question>> IN
  /\ Chk("the same question has the same answer", Consistent(question, Ev.value))
  /\ Chk("the searches alone were told what is at their place",
         \A k \in Lanes : \A i \in 1..Len(Ev.args) : CloseAll(ItemAt(Ev.args[i], At(k), Cfg.length), Ev.used[k + 1][i], Cfg.tol))
  /\ Chk("type of the new state", \A i \in 1..Len(Ev.dtypes) : Ev.dtypes[i] = Cfg.dtype)
  /\ \A o \in 1..Len(Ev.outs) :
     /\ Chk("the new state has its place in the batch", Fits(Ev.outs[o], Cfg.lead) /\ ItemShape(Ev.outs[o]) = <<Cfg.length>>)
     /\ Chk("a search in a batch behaves as the search alone",
            \A k \in Lanes : CloseAll(ItemAt(Ev.outs[o], At(k), Cfg.length), Ev.alone[k + 1][o], Cfg.tol))
     /\ Chk("the functional search agrees with the class-based one",
            \A k \in Lanes : CloseAll(ItemAt(Ev.outs[o], At(k), Cfg.length), Ev.class[k + 1][o], Cfg.tol))
  /\ Answered(question, Ev.value) /\ Given(Ev.name, Ev.value)
BornOk ==
  /\ \A o \in 1..Len(Ev.outs) :
     Chk("initial centre and deviations", \A k \in Lanes : CloseAll(ItemAt(Ev.outs[o], At(k), Cfg.length), Ev.class[k + 1][o], Cfg.tol))
  /\ Chk("type of the new state", \A i \in 1..Len(Ev.dtypes) : Ev.dtypes[i] = Cfg.dtype)
  /\ Given(Ev.name, Ev.value) /\ UNCHANGED answers

TNext ==
  /\ More /\ Consume
  /\ \/ Ev.op = "born" /\ BornOk
     \/ Ev.op = "note" /\ Given(Ev.name, Ev.value) /\ UNCHANGED answers
     \/ Ev.op = "ask" /\ Look /\ AskOk
     \/ Ev.op = "centre" /\ Look /\ CentreOk
     \/ Ev.op = "tell" /\ Look /\ TellOk
     \/ Ev.op = "bad" /\ Chk("meaningless settings are refused", Ev.refused) /\ UNCHANGED <<states, answers>>
=============================================================================

--------------------------- MODULE VariationTrace ---------------------------
EXTENDS Variation, TraceBase
TInit == StartTrace
TNext ==
  /\ More /\ Consume
  /\ Chk("every child starts unevaluated", Ev.unevaluated)
  /\ Chk("the given batch is not altered", Ev.same)
  /\ \/ Ev.op = "cross" /\
          /\ Chk("number of children", IF Ev.den = 0 THEN Len(Ev.kids) = Ev.num ELSE RateOk(Ev.num, Ev.den, Len(Ev.kids)))
          /\ Chk("complementary pairs of the genes of two parents", InPairs(Cfg.kind, Cfg.par, Ev.x, Ev.kids))
          /\ Chk("bounds", Cfg.kind = "blend" => Within(Ev.kids, Ev.x.lo, Ev.x.hi))
     \/ Ev.op = "permute" /\ Chk("each column keeps its genes", ColumnsConserved(Cfg.par, Ev.kids))
     \/ Ev.op = "mutate" /\
          /\ Chk("one child per parent, same length",
                 Len(Ev.kids) = Len(Cfg.par) /\ \A i \in 1..Len(Cfg.par) : Len(Ev.kids[i]) = Len(Cfg.par[i]))
          /\ Chk("bounds", Within(Ev.kids, Cfg.lo, Cfg.hi))
          /\ Chk("type", Ev.dtype_kept)
          /\ Chk("nothing changes without probability or spread", Ev.still => Ev.kids = Cfg.par)
     \/ Ev.op = "rate" /\
          /\ Chk("rate of mutation", AbsV(Ev.changed - Ev.expected) <= Ev.slack)
          /\ Chk("each variable is mutated or not by itself", \A i \in 1..Len(Ev.mixed) : Ev.mixed[i] > 0)
     \/ Ev.op = "mixing" /\
          /\ Chk("all cuts are made", Ev.most = Ev.k)
          /\ Chk("both parents are used", Ev.plain < Ev.kids)
          /\ Chk("all members can be parents", Ev.used = Ev.n)
=============================================================================

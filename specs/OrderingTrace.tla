--------------------------- MODULE OrderingTrace ----------------------------
EXTENDS Ordering, TraceBase
TInit == StartTrace

\* Cfg.f[k]: fitnesses of the k-th objective (integers in the order of the real fitnesses)
F == Cfg.f[Ev.obj]
S == Cfg.senses[Ev.obj]
SetOf(q) == {q[i] : i \in 1..Len(q)}

TakeOk ==
  LET want == IF Ev.n < Len(F) THEN Ev.n ELSE Len(F) IN
  /\ Chk("as many as asked for", Len(Ev.rows) = want)
  /\ Chk("distinct solutions of the batch", Cardinality(SetOf(Ev.rows)) = want /\ SetOf(Ev.rows) \subseteq 1..Len(F))
  /\ Chk("the best ones", TopSet(S, F, SetOf(Ev.rows)))
  /\ Chk("best first", \A i \in 1..(Len(Ev.rows) - 1) : ~Better(S, F[Ev.rows[i + 1]], F[Ev.rows[i]]))
  /\ Chk("with their own evaluations", Ev.evals_own)

RankOk ==
  /\ Chk("one utility per solution", Len(Ev.u) = Len(F))
  /\ \/ Ev.method = "centered" /\ Chk("centered utilities", Centered(S, F, Ev.u))
     \/ Ev.method = "linear" /\ Chk("linear utilities", Linear(S, F, Ev.u))
     \/ Ev.method = "nes" /\ Chk("logarithmic utilities", Nes(S, F, Ev.u))
     \/ Ev.method = "raw" /\ Chk("raw utilities", Raw(S, F, Ev.u))
     \/ Ev.method = "normalized" /\ Chk("normalized utilities", Norm(S, F, Ev.u))
     \/ Ev.method = "order" /\ Chk("utilities ordered", Strict(S, F, Ev.u) /\ EqualsShare(F, Ev.u))

CompareOk ==
  LET a == F[Ev.i]  b == F[Ev.j] IN
  /\ Chk("the sign of a comparison", Ev.sign = (IF Better(S, a, b) THEN 1 ELSE IF Better(S, b, a) THEN -1 ELSE 0))
  /\ Chk("better", Ev.better <=> Better(S, a, b))
  /\ Chk("worse", Ev.worse <=> Better(S, b, a))

TNext ==
  /\ More /\ Consume
  /\ \/ Ev.op = "argsort" /\ Chk("sorted from best to worst", SortedBestFirst(S, F, Ev.perm))
     \/ Ev.op = "argbest" /\ Chk("a best one", IsBest(S, F, Ev.i))
     \/ Ev.op = "argworst" /\ Chk("a worst one", IsWorst(S, F, Ev.i))
     \/ Ev.op = "compare" /\ CompareOk
     \/ Ev.op = "take_best" /\ TakeOk
     \/ Ev.op = "rank" /\ RankOk
     \/ Ev.op = "shape" /\ Chk("the shape of the result", Ev.got = Ev.want)
     \/ Ev.op = "refused" /\ Chk("a request without meaning is refused", Ev.refused)
     \/ Ev.op = "tournament" /\
          /\ Chk("winners are the best", \A i \in 1..Len(Ev.winners) : IsBest(S, F, Ev.winners[i]))
          /\ Chk("number of children", Len(Ev.winners) = Ev.want)
     \/ Ev.op = "unchanged" /\ Chk("the batch is unchanged", Ev.same)
=============================================================================

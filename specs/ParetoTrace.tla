---------------------------- MODULE ParetoTrace -----------------------------
EXTENDS Pareto, TraceBase
VARIABLES fr   \* the fronts of the batch under observation
TInit == StartTrace /\ fr = <<>>
F == Cfg.f
S == Cfg.senses
M == Len(Cfg.senses)
R(i) == RankIn(fr, i)
AllDistinct(q) == Cardinality(SetOfSeq(q)) = Len(q)
TNext ==
  /\ More /\ Consume
  /\ IF Ev.op = "batch" THEN fr' = Fronts(S, F) ELSE fr' = fr
  /\ \/ Ev.op = "batch"
     \/ Ev.op = "fronts" /\
          /\ Chk("number of fronts", Len(Ev.fronts) = Len(fr))
          /\ Chk("each front", \A r \in 1..Len(fr) : AllDistinct(Ev.fronts[r]) /\ SetOfSeq(Ev.fronts[r]) = fr[r])
          /\ Chk("sorted by crowding", Ev.crowd => \A r \in 1..Len(fr) : CrowdSorted(F, fr[r], M, Ev.fronts[r]))
     \/ Ev.op = "ranks" /\ Chk("front numbers", Len(Ev.ranks) = Len(F) /\ \A i \in 1..Len(F) : Ev.ranks[i] = R(i))
     \/ Ev.op = "crowdranks" /\
          Chk("crowding ranks inside each front", \A r \in 1..Len(fr) :
            /\ {Ev.ranks[i] : i \in fr[r]} = 0..(Cardinality(fr[r]) - 1)
            /\ CrowdSorted(F, fr[r], M, [k \in 1..Cardinality(fr[r]) |-> CHOOSE i \in fr[r] : Ev.ranks[i] = k - 1]))
     \/ Ev.op = "take_best" /\
          /\ Chk("distinct solutions", AllDistinct(Ev.rows) /\ SetOfSeq(Ev.rows) \subseteq 1..Len(F))
          /\ Chk("admissible choice", TakeOkSet(fr, F, M, Ev.n, SetOfSeq(Ev.rows)))
          /\ Chk("with their own evaluations", Ev.evals_own)
          /\ Chk("better fronts first", \A a \in 1..(Len(Ev.rows) - 1) : R(Ev.rows[a]) <= R(Ev.rows[a + 1]))
     \/ Ev.op = "tournament" /\
          Chk("winners belong to the first front", \A i \in 1..Len(Ev.winners) : Ev.winners[i] \in fr[1])
     \/ Ev.op = "unchanged" /\ Chk("the batch is unchanged", Ev.same)
     \/ Ev.op = "refused" /\ Chk("a batch which is not evaluated is refused", Ev.refused)
=============================================================================

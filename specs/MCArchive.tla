------------------------------ MODULE MCArchive ------------------------------
EXTENDS Archive, TLC
CONSTANTS MaxKids, MaxGen
VARIABLES gen, prev
\* deterministic fitness and one feature; two cells which share a border, and one apart
Fit(id) == id % 3
Feat(id) == (id * 5) % 7
V == 1..5
Cells == <<<<<<NINF, 2>>>>, <<<<2, 4>>>>, <<<<6, PINF>>>>>>
N == Len(Cells)
Row(id) == [id |-> id, ev |-> <<Fit(id), Feat(id)>>]
Configs == {[n |-> N, elitist |-> TRUE, reeval |-> r, pfirst |-> p, senses |-> <<s>>] :
              r \in BOOLEAN, p \in BOOLEAN, s \in {"min", "max"}}
Init == /\ \E c \in Configs, ids \in [1..N -> V] : StartGA(c, ids)
        /\ filled = [c \in 1..N |-> FALSE] /\ gen = 0 /\ prev = <<>>
RECURSIVE UpTo(_)
UpTo(k) == IF k = 0 THEN {} ELSE UpTo(k - 1) \cup [1..k -> V]
EvalStep == /\ \/ ~spawned /\ evald = <<>> /\ ParentsNeedEval /\ ParentsFirst
                  /\ Evaluated([i \in 1..Len(pop) |-> Row(pop[i].id)])
               \/ spawned /\ LET want == (IF ParentsNeedEval THEN Ids(pop) ELSE <<>>) \o kids
                                 done == Len(evald)
                             IN done < Len(want) /\ Evaluated([i \in 1..(Len(want) - done) |-> Row(want[done + i])])
            /\ UNCHANGED <<filled, gen, prev>>
SpawnStep == SpawnReady /\ (\E k \in UpTo(MaxKids) : Spawn(k)) /\ UNCHANGED <<filled, gen, prev>>
EndStep == /\ spawned /\ EvaluatedOk
           /\ LET cand == Candidates
                  \* what may be put into a cell; a cell without suitable solutions keeps something arbitrary
                  May(c) == LET S == {i \in 1..Len(cand) : CellOk(cfg.senses[1], cand, Cells[c], cand[i], TRUE)}
                            IN IF S = {} THEN {1} ELSE S
                  fill == [c \in 1..N |-> \E i \in 1..Len(cand) : In(Cells[c], cand[i].ev)]
              IN \E i \in May(1), j \in May(2), k \in May(3) :
                   LET new == <<cand[i], cand[j], cand[k]>> IN
                   Assert(ArchiveOk(Cells, new, fill), "no admissible archive") /\ EndGen(new) /\ filled' = fill
           /\ gen' = gen + 1 /\ prev' = IF first THEN <<>> ELSE pop
Next == gen < MaxGen /\ (EvalStep \/ SpawnStep \/ EndStep)
\* filled cells hold suitable solutions
Suits == \A c \in 1..N : filled[c] => In(Cells[c], pop[c].ev)
\* once filled, always filled, and never worse
Keeps == [][\A c \in 1..N : filled[c] => filled'[c] /\ ~BetterP(cfg.senses[1], pop[c].ev[1], pop'[c].ev[1])]_<<avars, gen, prev>>
\* grids tile the feature space
PointIn(I, x) == {i \in I : x >= i[1] /\ x <= i[2]}
ASSUME \A lb \in -3..0, d \in 0..4, bins \in 2..5 :
  LET step == IF bins = 2 THEN 1 ELSE bins - 2
      I == Intervals(lb * step, (lb + d) * step, bins) IN
  d > 0 => /\ Chain(I) /\ Cardinality(I) = bins
           /\ \A x \in -40..40 : PointIn(I, x) # {} /\ Cardinality({i \in I : x > i[1] /\ x < i[2]}) <= 1
=============================================================================

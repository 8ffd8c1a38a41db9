------------------------------- MODULE Pareto -------------------------------
(* Non-dominated sorting with crowding. f[i][k]: k-th objective of the i-th solution. *)
EXTENDS Integers, Sequences, FiniteSets

BetterP(sense, a, b) == IF sense = "min" THEN a < b ELSE a > b
Dom(senses, a, b) ==
  /\ \A k \in 1..Len(senses) : ~BetterP(senses[k], b[k], a[k])
  /\ \E k \in 1..Len(senses) : BetterP(senses[k], a[k], b[k])
NonDominated(senses, f, S) == {i \in S : ~\E j \in S : Dom(senses, f[j], f[i])}
RECURSIVE FrontsOf(_, _, _)
FrontsOf(senses, f, S) ==
  IF S = {} THEN <<>> ELSE LET F == NonDominated(senses, f, S) IN <<F>> \o FrontsOf(senses, f, S \ F)
Fronts(senses, f) == FrontsOf(senses, f, 1..Len(f))
RankIn(fronts, i) == (CHOOSE r \in 1..Len(fronts) : i \in fronts[r]) - 1

\* ---- crowding inside a front F
Col(f, F, k) == {f[i][k] : i \in F}
Tied(f, F, m) == \E k \in 1..m : Cardinality(Col(f, F, k)) # Cardinality(F)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Extreme(f, F, m, i) == \E k \in 1..m : f[i][k] = MinOf(Col(f, F, k)) \/ f[i][k] = MaxOf(Col(f, F, k))
Range(f, F, k) == MaxOf(Col(f, F, k)) - MinOf(Col(f, F, k))
\* distance between the two neighbours in the k-th objective (only used when there are no ties, for non-extreme i)
Gap(f, F, k, i) == MinOf({v \in Col(f, F, k) : v > f[i][k]}) - MaxOf({v \in Col(f, F, k) : v < f[i][k]})
RECURSIVE ProdExcept(_, _, _, _)
ProdExcept(f, F, m, k) == IF m = 0 THEN 1 ELSE (IF m = k THEN 1 ELSE Range(f, F, m)) * ProdExcept(f, F, m - 1, k)
RECURSIVE Dist(_, _, _, _, _)
\* crowding distance times the product of all ranges
Dist(f, F, m, i, k) == IF k = 0 THEN 0 ELSE Gap(f, F, k, i) * ProdExcept(f, F, m, k) + Dist(f, F, m, i, k - 1)
\* i is less crowding than j: must come before it
LessCrowding(f, F, m, i, j) ==
  \/ Extreme(f, F, m, i) /\ ~Extreme(f, F, m, j)
  \/ ~Extreme(f, F, m, i) /\ ~Extreme(f, F, m, j) /\ Dist(f, F, m, i, m) > Dist(f, F, m, j, m)
SetOfSeq(q) == {q[i] : i \in 1..Len(q)}
\* q lists the front F from the least to the most crowding
CrowdSorted(f, F, m, q) ==
  IF ~Tied(f, F, m)
  THEN \A a, b \in 1..Len(q) : a < b => ~LessCrowding(f, F, m, q[b], q[a])
  ELSE \* which of several equal solutions counts as the extreme one is open, but one of them does
       LET first == {q[i] : i \in 1..(IF Len(q) < 2 * m THEN Len(q) ELSE 2 * m)} IN
       \A k \in 1..m : (\E i \in first : f[i][k] = MinOf(Col(f, F, k))) /\ (\E i \in first : f[i][k] = MaxOf(Col(f, F, k)))

\* T is an admissible choice of the n best, given the fronts
TakeOkSet(fr, f, m, n, T) ==
  /\ Cardinality(T) = (IF n < Len(f) THEN n ELSE Len(f))
  /\ LET inr == {r \in 1..Len(fr) : fr[r] \cap T # {}}  last == IF inr = {} THEN 0 ELSE MaxOf(inr) IN
     /\ \A r \in 1..(last - 1) : fr[r] \subseteq T
     /\ last > 0 /\ ~Tied(f, fr[last], m) =>
          \A i \in fr[last] \cap T, j \in fr[last] \ T : ~LessCrowding(f, fr[last], m, j, i)
=============================================================================

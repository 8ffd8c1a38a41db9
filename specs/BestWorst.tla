------------------------------ MODULE BestWorst ------------------------------
(* Best and worst solutions ever evaluated, per objective, and what a search *)
(* reports about its current population.                                     *)
EXTENDS Integers, Sequences, FiniteSets

NaN == 2000000007

VARIABLES senses,   \* sequence of "min" / "max"
          best,     \* per objective: <<>> or <<[id, ev]>>
          worst,
          seen,     \* set of all rows [id, ev] ever evaluated
          given     \* reports handed out so far: sequence of [best, worst]

Objs == 1..Len(senses)
Better(i, a, b) == IF senses[i] = "min" THEN a < b ELSE a > b
Ranked(i, rows) == {r \in rows : r.ev[i] # NaN}
TopOf(i, rows) == {r \in Ranked(i, rows) : \A q \in Ranked(i, rows) : ~Better(i, q.ev[i], r.ev[i])}
BottomOf(i, rows) == {r \in Ranked(i, rows) : \A q \in Ranked(i, rows) : ~Better(i, r.ev[i], q.ev[i])}
Rows(q) == {q[k] : k \in 1..Len(q)}

\* the tracked solution after evaluating the rows; among equals any may be kept
NewBest(i, rows) ==
  LET t == TopOf(i, rows) IN
  IF t = {} THEN {best[i]}
  ELSE LET r == CHOOSE x \in t : TRUE  T == {<<x>> : x \in t} IN
       IF best[i] = <<>> THEN T
       ELSE IF Better(i, r.ev[i], best[i][1].ev[i]) THEN T
       ELSE IF Better(i, best[i][1].ev[i], r.ev[i]) THEN {best[i]}
       ELSE {best[i]} \cup T
NewWorst(i, rows) ==
  LET t == BottomOf(i, rows) IN
  IF t = {} THEN {worst[i]}
  ELSE LET r == CHOOSE x \in t : TRUE  T == {<<x>> : x \in t} IN
       IF worst[i] = <<>> THEN T
       ELSE IF Better(i, worst[i][1].ev[i], r.ev[i]) THEN T
       ELSE IF Better(i, r.ev[i], worst[i][1].ev[i]) THEN {worst[i]}
       ELSE {worst[i]} \cup T

Start(s) == /\ senses = s
            /\ best = [i \in 1..Len(s) |-> <<>>] /\ worst = [i \in 1..Len(s) |-> <<>>]
            /\ seen = {} /\ given = <<>>

Evaluate(rows, b, w) ==
  /\ \A i \in Objs : b[i] \in NewBest(i, rows) /\ w[i] \in NewWorst(i, rows)
  /\ best' = b /\ worst' = w
  /\ seen' = seen \cup rows
  /\ given' = Append(given, [best |-> b, worst |-> w])
  /\ senses' = senses

\* what the status says about a population (a sequence of rows)
PopBestOk(i, pop, r) == r \in TopOf(i, Rows(pop))
SumOf[q \in Seq(Int)] == IF q = <<>> THEN 0 ELSE q[1] + SumOf[Tail(q)]
Column(i, pop) == [k \in 1..Len(pop) |-> pop[k].ev[i]]
MeanOk(i, pop, m, scale) == m * Len(pop) = scale * SumOf[Column(i, pop)]
\* the lower median
MedianOk(i, pop, m) ==
  LET c == Column(i, pop)
      below == Cardinality({k \in DOMAIN c : c[k] < m})
      upto == Cardinality({k \in DOMAIN c : c[k] <= m})
      pos == (Len(c) + 1) \div 2
  IN below < pos /\ pos <= upto

(* ---- properties ---- *)
Exact == \A i \in Objs :
           /\ best[i] = <<>> <=> Ranked(i, seen) = {}
           /\ worst[i] = <<>> <=> Ranked(i, seen) = {}
           /\ best[i] # <<>> => best[i][1] \in TopOf(i, seen)
           /\ worst[i] # <<>> => worst[i][1] \in BottomOf(i, seen)
Monotone == [][\A i \in Objs : /\ best[i] # <<>> => best'[i] # <<>> /\ ~Better(i, best[i][1].ev[i], best'[i][1].ev[i])
                               /\ worst[i] # <<>> => worst'[i] # <<>> /\ ~Better(i, worst'[i][1].ev[i], worst[i][1].ev[i])]_best
Snapshots == [][Len(given') >= Len(given) /\ \A k \in 1..Len(given) : given'[k] = given[k]]_given
=============================================================================

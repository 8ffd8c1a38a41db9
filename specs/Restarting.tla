---------------------------- MODULE Restarting ----------------------------
(* A search which starts another search again and again. The inner search    *)
(* makes one generation at every generation of the outer one. Once the inner *)
(* search has ended, or its fitnesses have become too similar, a new inner   *)
(* search is started with the settings which the rule prescribes.            *)
EXTENDS Integers, Sequences, FiniteSets
Worst == -2000000001   \* best value before anything was evaluated
VARIABLES outer,   \* generations made by the outer search
          inner,   \* generations made by the present inner search
          starts,  \* inner searches started
          pop,     \* population size of the present inner search
          best     \* best fitness so far (larger is better)
rvars == <<outer, inner, starts, pop, best>>

RECURSIVE Sum(_, _)
Sum(f, k) == IF k = 0 THEN 0 ELSE f[k] + Sum(f, k - 1)
RECURSIVE SumSq(_, _)
SumSq(f, k) == IF k = 0 THEN 0 ELSE f[k] * f[k] + SumSq(f, k - 1)

(* n (n - 1) times the variance of the fitnesses, and its limit: the least   *)
(* standard deviation is lim / 2; -1 stands for a tiny one.                  *)
Spread(fits) == LET n == Len(fits) IN n * SumSq(fits, n) - Sum(fits, n) * Sum(fits, n)
Limit(fits, lim) == Len(fits) * (Len(fits) - 1) * lim * lim
Similar(fits, lim) == Len(fits) >= 2 /\ IF lim = -1 THEN Spread(fits) = 0 ELSE 4 * Spread(fits) < Limit(fits, lim)
\* rounding decides
Close(fits, lim) == Len(fits) >= 2 /\ lim > 0 /\ 4 * Spread(fits) = Limit(fits, lim) /\ Spread(fits) # 0

\* ended: the inner search says so; rule: "plain", "grow" (restarts by similarity, with a multiplied population)
Must(rule, ended, fits) == ended \/ (rule.kind = "grow" /\ Similar(fits, rule.lim))
May(rule, ended, fits) == Must(rule, ended, fits) \/ (rule.kind = "grow" /\ Close(fits, rule.lim))
\* the multiplier is twice / 2; modifying rules list the population sizes of their starts
NextPop(rule, size) ==
    CASE rule.kind = "grow" -> (rule.twice * size) \div 2
      [] rule.kind = "list" -> rule.sizes[1 + (starts % Len(rule.sizes))]
      [] OTHER -> size

Max(S) == CHOOSE m \in S : \A x \in S : x <= m
Start(size) == outer = 0 /\ inner = 0 /\ starts = 1 /\ pop = size /\ best = Worst
\* size: how many solutions the population of the inner search had
Step(rule, fits, ended, again, seen) ==
    /\ Must(rule, ended, fits) => again
    /\ again => May(rule, ended, fits)
    /\ outer' = outer + 1
    /\ best' = Max(seen \cup {best})
    /\ IF again THEN inner' = 0 /\ starts' = starts + 1 /\ pop' = NextPop(rule, Len(fits))
       ELSE inner' = inner + 1 /\ starts' = starts /\ pop' = pop
=============================================================================

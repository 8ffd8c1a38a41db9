------------------------------ MODULE Ordering ------------------------------
(* Order of fitnesses under an objective sense; sorting, selecting, ranking. *)
EXTENDS Integers, Sequences, FiniteSets, LogTable

Better(sense, a, b) == IF sense = "min" THEN a < b ELSE a > b
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE q[1] + SumSeq(Tail(q))
IsPerm(p, n) == Len(p) = n /\ {p[i] : i \in 1..n} = 1..n

\* p lists the indices from the best to the worst
SortedBestFirst(sense, f, p) ==
  IsPerm(p, Len(f)) /\ \A i \in 1..(Len(p) - 1) : ~Better(sense, f[p[i + 1]], f[p[i]])
IsBest(sense, f, i) == i \in 1..Len(f) /\ \A j \in 1..Len(f) : ~Better(sense, f[j], f[i])
IsWorst(sense, f, i) == i \in 1..Len(f) /\ \A j \in 1..Len(f) : ~Better(sense, f[i], f[j])
\* S is a set of |S| best ones
TopSet(sense, f, S) == \A i \in S, j \in (1..Len(f)) \ S : ~Better(sense, f[j], f[i])

\* utilities: a strictly better fitness has a strictly larger (or at least not smaller) utility
Strict(sense, f, u) == \A i, j \in 1..Len(f) : Better(sense, f[i], f[j]) => u[i] > u[j]
Weak(sense, f, u) == \A i, j \in 1..Len(f) : Better(sense, f[i], f[j]) => u[i] >= u[j]
EqualsShare(f, u) == \A i, j \in 1..Len(f) : f[i] = f[j] => u[i] = u[j]

(* Utilities come as integers, u * UScale rounded.                           *)
UScale == 8192
\* level k (0 = worst) of each ranking, as an integer with denominator: the true value is Level / Den * UScale
Near(x, num, den, tol) == Abs(x * den - num * UScale) <= tol * den
CenteredNear(n, k, x) == Near(x, 2 * k - (n - 1), 2 * (n - 1), 2)
LinearNear(n, k, x) == Near(x, k, n - 1, 2)
EachLevelOnce(n, u, IsAt(_, _, _)) == \A k \in 0..(n - 1) : Cardinality({i \in 1..n : IsAt(n, k, u[i])}) = 1
Centered(sense, f, u) == Strict(sense, f, u) /\ EachLevelOnce(Len(f), u, CenteredNear)
Linear(sense, f, u) == Strict(sense, f, u) /\ EachLevelOnce(Len(f), u, LinearNear)

\* the logarithmic weights: weight of the k-th worst (k = 0 .. n-1), at the scale of the table
NesWeight(n, k) == LET w == HalfLog[n + 2] - HalfLog[2 * (n - k)] IN IF w > 0 THEN w ELSE 0
NesTotal(n) == SumSeq([k \in 1..n |-> NesWeight(n, k - 1)])
NesLevel(n, k) == ((NesWeight(n, k) * UScale) \div NesTotal(n)) - (UScale \div n)
NesNear(n, k, x) == Abs(x - NesLevel(n, k)) <= 4
\* levels may coincide: as many utilities near a level as there are equal levels
Nes(sense, f, u) ==
  /\ Weak(sense, f, u)
  /\ \A i \in 1..Len(f) : \E k \in 0..(Len(f) - 1) :
       /\ NesNear(Len(f), k, u[i])
       /\ Cardinality({j \in 1..Len(f) : Better(sense, f[i], f[j])}) <= k
       /\ k < Len(f) - Cardinality({j \in 1..Len(f) : Better(sense, f[j], f[i])})
  /\ Abs(SumSeq(u)) <= 2 * Len(f)
Raw(sense, f, u) == \A i \in 1..Len(f) : u[i] = (IF sense = "min" THEN -f[i] ELSE f[i]) * UScale
\* at the scale 1024: affine in the fitnesses, zero mean, unit variance
Norm(sense, f, v) ==
  LET n == Len(f)  s == IF sense = "min" THEN -1 ELSE 1
  IN /\ Abs(SumSeq(v)) <= n
     /\ Abs(SumSeq([i \in 1..n |-> v[i] * v[i]]) - (n - 1) * 1024 * 1024) <= 4096 * n
     /\ Strict(sense, f, v)
     /\ \A i, j, k \in 1..n : Abs((v[i] - v[j]) * (f[k] - f[j]) - (v[k] - v[j]) * (f[i] - f[j])) <= 4 * (1 + Abs(f[k] - f[j]) + Abs(f[i] - f[j]))
=============================================================================

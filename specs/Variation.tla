------------------------------ MODULE Variation ------------------------------
(* Recombination and mutation. par[i][g]: gene g of parent i.                   *)
EXTENDS Integers, Sequences, FiniteSets

AbsV(x) == IF x < 0 THEN -x ELSE x
CountV(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
SameBagV(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : CountV(p, p[i]) = CountV(q, p[i])
Column(rows, g) == [i \in 1..Len(rows) |-> rows[i][g]]
Switches(w) == Cardinality({g \in 1..(Len(w) - 1) : w[g] # w[g + 1]})

\* The operators as transitions -------------------------------------------------
\* a mask over the genes, made by toggling from each cut point on
Mask(L, cuts) == [g \in 1..L |-> Cardinality({k \in 1..Len(cuts) : g >= cuts[k]}) % 2 = 1]
Cross(a, b, mask) == <<[g \in 1..Len(a) |-> IF mask[g] THEN a[g] ELSE b[g]],
                       [g \in 1..Len(a) |-> IF mask[g] THEN b[g] ELSE a[g]]>>
Splice(a, b, i, j) == <<SubSeq(a, 1, i) \o SubSeq(b, j + 1, Len(b)), SubSeq(b, 1, j) \o SubSeq(a, i + 1, Len(a))>>

\* What is observable of them ---------------------------------------------------
\* two children c, d of the rows a, b at k cut points
CutPair(a, b, k, c, d) ==
  /\ Len(c) = Len(a) /\ Len(d) = Len(a)
  /\ \E w \in [1..Len(a) -> BOOLEAN] :
       /\ \A g \in 1..Len(a) : IF w[g] THEN c[g] = a[g] /\ d[g] = b[g] ELSE c[g] = b[g] /\ d[g] = a[g]
       /\ Switches(w) <= k
       /\ k = 1 => Switches(w) = 1
SplicePair(a, b, c, d) ==
  \E i \in 0..(Len(a) - 1), j \in 0..(Len(b) - 1) : <<c, d>> = Splice(a, b, i, j)
\* simulated binary cross-over: mirror images about the middle of the parents, except where the bounds cut
BlendPair(a, b, lo, hi, tol, c, d) ==
  /\ Len(c) = Len(a) /\ Len(d) = Len(a)
  /\ \A g \in 1..Len(a) : AbsV(c[g] + d[g] - a[g] - b[g]) <= tol \/ (Len(lo) > 0 /\ ({c[g], d[g]} \cap {lo[g], hi[g]} # {}))

PairOk(kind, par, x, c, d) ==
  \E i, j \in 1..Len(par) :
    CASE kind = "cut" -> CutPair(par[i], par[j], x.k, c, d)
      [] kind = "splice" -> SplicePair(par[i], par[j], c, d)
      [] kind = "blend" -> BlendPair(par[i], par[j], x.lo, x.hi, x.tol, c, d)
RECURSIVE Matched(_, _, _, _, _)
\* the children can be arranged in such pairs
Matched(kind, par, x, kids, S) ==
  IF S = {} THEN TRUE
  ELSE LET i == CHOOSE i \in S : \A j \in S : i <= j
       IN \E j \in S \ {i} : (PairOk(kind, par, x, kids[i], kids[j]) \/ PairOk(kind, par, x, kids[j], kids[i]))
                             /\ Matched(kind, par, x, kids, S \ {i, j})
InPairs(kind, par, x, kids) == Len(kids) % 2 = 0 /\ Matched(kind, par, x, kids, 1..Len(kids))

\* number of children asked for as num/den times the number of parents: an even number at most 1 away
RateOk(num, den, n) == n % 2 = 0 /\ AbsV(n * den - num) <= den

Within(rows, lo, hi) == \A i \in 1..Len(rows) : \A g \in 1..Len(rows[i]) :
                          (Len(lo) > 0 => rows[i][g] >= lo[g]) /\ (Len(hi) > 0 => rows[i][g] <= hi[g])
ColumnsConserved(par, kids) == Len(par) = Len(kids) /\ \A g \in 1..Len(par[1]) : SameBagV(Column(par, g), Column(kids, g))
=============================================================================

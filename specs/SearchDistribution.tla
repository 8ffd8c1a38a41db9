------------------------- MODULE SearchDistribution -------------------------
(* Gaussian search distributions: how gradients are estimated from samples    *)
(* and how parameters follow them. Positions come at scale 2 (halves). A      *)
(* fraction is a record [num, den, ds, err]: its value is num * ds / den, and *)
(* err bounds the error of num.                                               *)
EXTENDS Ordering

GS == 256   \* scale of observed gradients
Sum(n, F(_)) == SumSeq([i \in 1..n |-> F(i)])
RECURSIVE RootFrom(_, _)
RootFrom(x, r) == LET q == (r + x \div r) \div 2 IN IF q >= r THEN r ELSE RootFrom(x, q)
Root(x) == IF x = 0 THEN 0 ELSE RootFrom(x, IF x < 46340 THEN x ELSE 46340)

(* ---- the weight of each sample: an integer, at a scale c ---- *)
Worse(sense, f, i) == Cardinality({j \in 1..Len(f) : Better(sense, f[i], f[j])})
Signed(sense, v) == IF sense = "min" THEN -v ELSE v
Centre(w) == LET n == Len(w)  t == SumSeq(w) IN [i \in 1..n |-> n * w[i] - t]
RawWeights(sense, f, ranking) ==
  LET n == Len(f) IN
  CASE ranking = "raw" -> [w |-> [i \in 1..n |-> Signed(sense, f[i])], c |-> 1, ds |-> 1, err |-> 0]
    [] ranking = "linear" -> [w |-> [i \in 1..n |-> Worse(sense, f, i)], c |-> n - 1, ds |-> 1, err |-> 0]
    [] ranking = "centered" -> [w |-> [i \in 1..n |-> 2 * Worse(sense, f, i) - (n - 1)], c |-> 2 * (n - 1), ds |-> 1, err |-> 0]
    [] ranking = "nes" -> [w |-> [i \in 1..n |-> NesLevel(n, Worse(sense, f, i))], c |-> UScale, ds |-> 1, err |-> 4]
    [] ranking = "normalized" ->
         LET d == Centre([i \in 1..n |-> Signed(sense, f[i])])
         IN [w |-> d, c |-> Root((Sum(n, LAMBDA i : d[i] * d[i]) * 1024) \div (n - 1)), ds |-> 32, err |-> 0]
\* weights are made zero-centred, unless the ranking did so already (or unless the table of nes did so)
Weights(sense, f, ranking) ==
  LET r == RawWeights(sense, f, ranking) IN
  IF ranking \in {"centered", "normalized", "nes"} THEN r ELSE [r EXCEPT !.w = Centre(r.w), !.c = @ * Len(f)]

TotalWeight(w) == Sum(Len(w), LAMBDA i : Abs(w[i]))
\* the standard deviation of the weights, times 32
Stdev32(w) == LET n == Len(w)  d == Centre(w) IN Root((Sum(n, LAMBDA i : d[i] * d[i]) * 1024) \div (n - 1)) \div n
\* the sum s of weights times something known at the scale k, divided as configured
Divided(W, by, s, k, amp) ==
  CASE by = "none" -> [num |-> s, den |-> W.c * k, ds |-> W.ds, err |-> W.err * amp]
    [] by = "num_solutions" -> [num |-> s, den |-> W.c * k * Len(W.w), ds |-> W.ds, err |-> W.err * amp]
    [] by = "num_directions" -> [num |-> s, den |-> W.c * k * (Len(W.w) \div 2), ds |-> W.ds, err |-> W.err * amp]
    [] by = "total_weight" -> [num |-> s, den |-> k * TotalWeight(W.w), ds |-> 1, err |-> W.err * amp]
    [] by = "weight_stdev" -> [num |-> s, den |-> k * Stdev32(W.w), ds |-> 32, err |-> W.err * amp]
Matches(g, q) == Abs(g * q.den - q.num * GS * q.ds) <= 2 * q.den + 3 * Abs(g) * q.ds + q.err * GS * q.ds

(* ---- gradient estimates, for dimension d ---- *)
Noise(x, mu, i, d) == x[i][d] - mu[d]
Spread(x, mu, sg, i, d) == (4 * (Noise(x, mu, i, d) * Noise(x, mu, i, d) - sg[d] * sg[d])) \div sg[d]
SepMu(x, mu, W, by, d) ==
  Divided(W, by, Sum(Len(x), LAMBDA i : W.w[i] * Noise(x, mu, i, d)), 2, 8 * Len(x))
SepSigma(x, mu, sg, W, by, d) ==
  Divided(W, by, Sum(Len(x), LAMBDA i : W.w[i] * Spread(x, mu, sg, i, d)), 8, 64 * Len(x))
\* mirrored pairs: rows 2k-1 and 2k
Dirs(x) == Len(x) \div 2
SymMu(x, mu, W, by, d) ==
  Divided(W, by, Sum(Dirs(x), LAMBDA k : (W.w[2 * k - 1] - W.w[2 * k]) * Noise(x, mu, 2 * k - 1, d)), 4, 8 * Len(x))
SymSigma(x, mu, sg, W, by, d) ==
  Divided(W, by, Sum(Dirs(x), LAMBDA k : (W.w[2 * k - 1] + W.w[2 * k]) * Spread(x, mu, sg, 2 * k - 1, d)), 16, 64 * Len(x))
\* the exponential family: weights sum to one in size (those of nes are taken as they are)
ExpMu(x, mu, R, by, d) == Divided(R, by, Sum(Len(x), LAMBDA i : R.w[i] * Noise(x, mu, i, d)), 2, 8 * Len(x))
RawNoise2(x, mu, sg, i, d) == (2 * Noise(x, mu, i, d)) \div sg[d]
ExpSigma(x, mu, sg, R, by, d) ==
  Divided(R, by, Sum(Len(x), LAMBDA i : R.w[i] * (RawNoise2(x, mu, sg, i, d) * RawNoise2(x, mu, sg, i, d) - 4)), 4, 64 * Len(x))
\* the elites: their mean and their standard deviation become the aims
Elites(sense, f, m) == {i \in 1..Len(f) : Len(f) - Worse(sense, f, i) <= m}
RECURSIVE SumOver(_, _)
SumOver(S, F) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN F[i] + SumOver(S \ {i}, F)
EliteMu(x, mu, E, d) == [num |-> SumOver(E, [i \in 1..Len(x) |-> Noise(x, mu, i, d)]), den |-> 2 * Cardinality(E), ds |-> 1, err |-> 0]
EliteStd(x, E, d) ==
  LET m == Cardinality(E)  t == SumOver(E, [i \in 1..Len(x) |-> x[i][d]])
      q == SumOver(E, [i \in 1..Len(x) |-> (m * x[i][d] - t) * (m * x[i][d] - t)])
  IN [num |-> Root((q * 1024) \div (m - 1)), den |-> 64 * m, ds |-> 1, err |-> 1]
\* full covariance: local coordinates, with the inverse of the shape matrix at scale 2
Local(x, mu, inv, i, d) == Sum(Len(mu), LAMBDA e : inv[d][e] * Noise(x, mu, i, e))
FullMu(x, mu, inv, W, d) == Divided(W, "none", Sum(Len(x), LAMBDA i : W.w[i] * Local(x, mu, inv, i, d)), 4, 16 * Len(x))
FullM(x, mu, inv, W, d, e) ==
  Divided(W, "none", Sum(Len(x), LAMBDA i : W.w[i] * (Local(x, mu, inv, i, d) * Local(x, mu, inv, i, e) - (IF d = e THEN 16 ELSE 0))), 16, 200 * Len(x))
MatMul(a, b) == [i \in 1..Len(a) |-> [j \in 1..Len(b[1]) |-> Sum(Len(b), LAMBDA k : a[i][k] * b[k][j])]]
Identity(n, v) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN v ELSE 0]]

(* ---- samples ---- *)
\* mirrored around the centre, up to rounding; scale 4096
Mirrored(x, mu, tol) == Len(x) % 2 = 0 /\ \A k \in 1..Dirs(x), d \in 1..Len(mu) : Abs(x[2 * k - 1][d] + x[2 * k][d] - 2 * mu[d]) <= tol
Distinct(x) == Cardinality({x[i] : i \in 1..Len(x)}) >= (Len(x) + 1) \div 2
\* the sum of squares of n normalised noises (scale 16): far beyond chance outside of these bounds for n >= 400
Standard(z) == LET n == Len(z)  s == Sum(n, LAMBDA i : z[i])  q == Sum(n, LAMBDA i : z[i] * z[i])
               IN n >= 400 /\ Abs(s) <= 6 * n /\ q >= 128 * n /\ q <= 400 * n
Uncorrelated(z, y) == Abs(Sum(Len(z), LAMBDA i : z[i] * y[i])) <= 120 * Len(z)
=============================================================================

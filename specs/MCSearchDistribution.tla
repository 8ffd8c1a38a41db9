------------------------ MODULE MCSearchDistribution ------------------------
(* All tiny sample sets: the rules do not depend on the order of the samples, *)
(* nor on where the centre is; raising all fitnesses changes nothing; and on   *)
(* mirrored samples the rule for pairs agrees with the general rule.           *)
EXTENDS SearchDistribution
VARIABLES s
N == 4
Init == s = [x |-> <<>>, f |-> <<>>]
Fits == 0..2
Next == Len(s.x) < N /\ \E v \in -2..2, q \in Fits : s' = [x |-> Append(s.x, <<v>>), f |-> Append(s.f, q)]
Same(a, b) == a.num * b.den = b.num * a.den /\ a.den # 0
Distinct_(f) == \A i, j \in 1..Len(f) : i # j => f[i] # f[j]
Swap(q) == <<q[2], q[1]>> \o SubSeq(q, 3, Len(q))
Methods == {"raw", "linear", "centered"}
Mirror == Len(s.x) % 2 = 0 /\ \A k \in 1..(Len(s.x) \div 2) : s.x[2 * k - 1][1] = -s.x[2 * k][1]
Ok == Len(s.x) >= 2 => \A sense \in {"min", "max"}, m \in Methods : (m = "raw" \/ Distinct_(s.f)) =>
  LET W == Weights(sense, s.f, m)  V == Weights(sense, Swap(s.f), m)  mu == <<0>>  sg == <<2>>
      up == Weights(sense, [i \in 1..Len(s.f) |-> s.f[i] + 1], m)
      flip == Weights(IF sense = "min" THEN "max" ELSE "min", [i \in 1..Len(s.f) |-> -s.f[i]], m)
      shifted == [i \in 1..Len(s.x) |-> <<s.x[i][1] + 3>>]
  IN /\ SumSeq(W.w) = 0
     /\ Same(SepMu(s.x, mu, W, "num_solutions", 1), SepMu(Swap(s.x), mu, V, "num_solutions", 1))
     /\ Same(SepSigma(s.x, mu, sg, W, "none", 1), SepSigma(Swap(s.x), mu, sg, V, "none", 1))
     /\ up.w = W.w /\ flip.w = W.w
     /\ SepMu(shifted, <<3>>, W, "none", 1) = SepMu(s.x, mu, W, "none", 1)
     /\ Mirror =>
          /\ Same(SepMu(s.x, mu, W, "num_solutions", 1), SymMu(s.x, mu, W, "num_directions", 1))
          /\ Same(SepSigma(s.x, mu, sg, W, "num_solutions", 1), SymSigma(s.x, mu, sg, W, "num_directions", 1))
RootOk == \A x \in {0, 1, 2, 3, 4, 15, 16, 17, 99, 100, 65535, 65536, 1000000, 2000000000} : LET r == Root(x) IN r * r <= x /\ (r >= 46340 \/ (r + 1) * (r + 1) > x)
=============================================================================

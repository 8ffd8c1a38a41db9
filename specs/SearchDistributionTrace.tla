---------------------- MODULE SearchDistributionTrace ----------------------
EXTENDS SearchDistribution, TraceBase
VARIABLES mu, sg      \* the parameters along a chain of updates (scale 256)
vars == <<tid, l, mu, sg>>
TInit == StartTrace /\ mu = <<>> /\ sg = <<>>

Dims == 1..Len(Ev.mu)
W == Weights(Ev.sense, Ev.f, Ev.ranking)
R == RawWeights(Ev.sense, Ev.f, Ev.ranking)
ExpBy == IF Ev.ranking = "nes" THEN "none" ELSE "total_weight"
Grad ==
  /\ Ev.op = "grad" /\ UNCHANGED <<mu, sg>>
  /\ Chk("arguments and distribution are kept", Ev.kept)
  /\ CASE Ev.kind = "sep" ->
            LET w == W IN
            /\ Chk("gradient of the centre", \A d \in Dims : Matches(Ev.g_mu[d], SepMu(Ev.x, Ev.mu, w, Ev.by_mu, d)))
            /\ Chk("gradient of the deviation", \A d \in Dims : Matches(Ev.g_sg[d], SepSigma(Ev.x, Ev.mu, Ev.sg, w, Ev.by_sg, d)))
       [] Ev.kind = "sym" ->
            LET w == W IN
            /\ Chk("gradient of the centre", \A d \in Dims : Matches(Ev.g_mu[d], SymMu(Ev.x, Ev.mu, w, Ev.by_mu, d)))
            /\ Chk("gradient of the deviation", \A d \in Dims : Matches(Ev.g_sg[d], SymSigma(Ev.x, Ev.mu, Ev.sg, w, Ev.by_sg, d)))
       [] Ev.kind = "exp" ->
            LET r == R IN
            /\ Chk("gradient of the centre", \A d \in Dims : Matches(Ev.g_mu[d], ExpMu(Ev.x, Ev.mu, r, ExpBy, d)))
            /\ Chk("gradient of the deviation", \A d \in Dims : Matches(Ev.g_sg[d], ExpSigma(Ev.x, Ev.mu, Ev.sg, r, ExpBy, d)))
       [] Ev.kind = "cem" ->
            LET E == Elites(Ev.sense, Ev.f, (Len(Ev.f) * Ev.ratio) \div 8) IN
            /\ Chk("gradient of the centre", \A d \in Dims : Matches(Ev.g_mu[d], EliteMu(Ev.x, Ev.mu, E, d)))
            /\ Chk("gradient of the deviation", \A d \in Dims : Matches(Ev.g_sg[d] + Ev.sg[d] * (GS \div 2), EliteStd(Ev.x, E, d)))
       [] Ev.kind = "full" ->
            LET w == W IN
            /\ MatMul(Ev.A, Ev.inv) = Identity(Len(Ev.mu), 4)
            /\ Chk("gradient of the centre", \A d \in Dims : Matches(Ev.g_mu[d], FullMu(Ev.x, Ev.mu, Ev.inv, w, d)))
            /\ Chk("gradient of the shape", \A d, e \in Dims : Matches(Ev.g_M[d][e], FullM(Ev.x, Ev.mu, Ev.inv, w, d, e)))

Start == Ev.op = "start" /\ mu' = Ev.mu /\ sg' = Ev.sg
\* learning rates at scale 4 and gradients at scale 2; the step of an optimizer at scale 256
Move(how, lr, g, step) == CASE how = "rate" -> lr * g * 32 [] how = "plain" -> g * 128 [] how = "optimizer" -> step
Pow2(k) == IF k >= 0 THEN 2 ^ k ELSE 1
Times2(v, k) == IF k >= 0 THEN v * (2 ^ k) ELSE v \div (2 ^ (-k))
Close(a, b, tol) == Abs(a - b) <= tol
Update ==
  /\ Ev.op = "update" /\ mu' = Ev.out_mu /\ sg' = Ev.out_sg
  /\ Chk("arguments and distribution are kept", Ev.kept)
  /\ IF Ev.kind = "full"
     THEN /\ Chk("centre follows its gradient", \A d \in 1..Len(mu) :
                Close(Ev.out_mu[d] * 256, mu[d] * 256 + Sum(Len(mu), LAMBDA e : sg[d][e] * Move(Ev.how_mu, Ev.lr_mu, Ev.g_mu[e], Ev.step[e])), 1024))
          /\ Chk("shape follows its gradient", \A d, e \in 1..Len(mu) : Close(Ev.out_sg[d][e], Times2(sg[d][e], Ev.k[e]), 3))
          /\ Chk("inverse of the shape", LET p == MatMul(Ev.out_sg, Ev.out_inv) IN
                \A d, e \in 1..Len(mu) : Close(p[d][e], IF d = e THEN 65536 ELSE 0, 4096))
     ELSE /\ Chk("centre follows its gradient", \A d \in 1..Len(mu) : Close(Ev.out_mu[d], mu[d] + Move(Ev.how_mu, Ev.lr_mu, Ev.g_mu[d], Ev.step[d]), 1))
          /\ Chk("deviation follows its gradient", \A d \in 1..Len(mu) :
                IF Ev.kind = "exp" THEN Close(Ev.out_sg[d], Times2(sg[d], Ev.k[d]), 3)
                ELSE Close(Ev.out_sg[d], sg[d] + Move(Ev.how_sg, Ev.lr_sg, Ev.g_sg[d], 0), 1))

Sample ==
  /\ Ev.op = "sample" /\ UNCHANGED <<mu, sg>>
  /\ Chk("sampling keeps the distribution", Ev.kept)
  /\ Chk("odd numbers of mirrored samples are refused", Ev.refused = (Ev.kind = "sym" /\ Ev.num % 2 = 1))
  /\ ~Ev.refused =>
       /\ Chk("number of samples", Len(Ev.x) = Ev.num /\ \A i \in 1..Ev.num : Len(Ev.x[i]) = Len(Ev.mu))
       /\ Chk("mirrored pairs", Ev.kind = "sym" => Mirrored(Ev.x, Ev.mu, 2))
       /\ Chk("samples differ", Distinct(Ev.x))
       /\ Chk("asked container is filled", Ev.filled)
Spread_ ==
  /\ Ev.op = "spread" /\ UNCHANGED <<mu, sg>>
  /\ Chk("samples have the deviations of the distribution", \A d \in 1..Len(Ev.z) : Standard(Ev.z[d]))
  /\ Chk("noises are independent", Ev.kind = "sym" \/ \A d, e \in 1..Len(Ev.z) : d # e => Uncorrelated(Ev.z[d], Ev.z[e]))
Agree == Ev.op = "agree" /\ UNCHANGED <<mu, sg>>
  /\ Chk("same estimate", Len(Ev.a) = Len(Ev.b) /\ \A i \in 1..Len(Ev.a) : Close(Ev.a[i], Ev.b[i], 4 + Abs(Ev.a[i]) \div 2000))
Refuse == Ev.op = "refuse" /\ UNCHANGED <<mu, sg>> /\ Chk("ill-formed requests are refused", Ev.refused)
\* twice the relative entropy; deviations are powers of two: e is the exponent
Ratio(e) == IF e >= 0 THEN 1024 * (4 ^ e) ELSE 1024 \div (4 ^ (-e))
Entropy ==
  /\ Ev.op = "entropy" /\ UNCHANGED <<mu, sg>>
  /\ LET n == Len(Ev.e0)
         t == Sum(n, LAMBDA d : Ratio(Ev.e0[d] - Ev.e1[d]) - 1024 + ((Ev.m1[d] - Ev.m0[d]) * (Ev.m1[d] - Ev.m0[d]) * Ratio(-Ev.e1[d])) \div 4 + (1420 * (Ev.e1[d] - Ev.e0[d])))
     IN Chk("relative entropy", Close(Ev.kl2, t, 4 * n + 4))
Cov ==
  /\ Ev.op = "cov" /\ UNCHANGED <<mu, sg>>
  /\ LET n == Len(Ev.A)  t == [i \in 1..n |-> [j \in 1..n |-> Ev.A[j][i]]]  p == MatMul(Ev.A, t)
     IN Chk("covariance of the samples", \A i, j \in 1..n : Ev.cov[i][j] = p[i][j])
TNext == More /\ Consume /\ (Grad \/ Start \/ Update \/ Sample \/ Spread_ \/ Agree \/ Refuse \/ Entropy \/ Cov)
=============================================================================

----------------------------- MODULE Adaptation -----------------------------
(* The limits under which a distribution-based search adapts itself: how far  *)
(* its standard deviations may go, how its centre moves (optimizers), and how *)
(* its population grows under an interaction budget.                          *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE q[1] + SumSeq(Tail(q))
RECURSIVE RootFrom(_, _)
RootFrom(x, r) == LET q == (r + x \div r) \div 2 IN IF q >= r THEN r ELSE RootFrom(x, q)
Root(x) == IF x = 0 THEN 0 ELSE RootFrom(x, IF x < 46340 THEN x ELSE 46340)

(* ---- standard deviations ---- *)
\* the limits: smallest, largest, and the allowed relative change in 64ths; HUGE means no limit
HUGE == 2000000001
Low(old, lo, ch) == IF ch = HUGE THEN lo ELSE Max(lo, old - (Abs(old) * ch) \div 64)
High(old, hi, ch) == IF ch = HUGE THEN hi ELSE Min(hi, old + (Abs(old) * ch) \div 64)
Limited(old, target, lo, hi, ch) == Min(Max(target, Low(old, lo, ch)), High(old, hi, ch))
Within(v, lo, hi) == lo <= v /\ v <= hi
ChangeOk(old, new, ch, tol) == ch = HUGE \/ Abs(new - old) * 64 <= Abs(old) * ch + 64 * tol

(* ---- optimizers: the step made for each gradient ---- *)
\* velocity-clipping: values at scale VS; momentum in eighths, step size and maximum speed at scale VS
VS == 1024
Norm(v) == Root(SumSeq([i \in 1..Len(v) |-> v[i] * v[i]]))
Pushed(v, momentum, stepsize, g) ==
  LET n == Norm(g) IN [i \in 1..Len(g) |-> (momentum * v[i]) \div 8 + (IF n = 0 THEN 0 ELSE (stepsize * g[i]) \div n)]
ClipUpOk(v, momentum, stepsize, maxspeed, g, out) ==
  LET u == Pushed(v, momentum, stepsize, g)  n == Norm(u) IN
  /\ \A i \in 1..Len(g) : IF n <= maxspeed THEN Abs(out[i] - u[i]) <= 4 ELSE Abs(out[i] * n - u[i] * maxspeed) <= 5 * n
  /\ Norm(out) <= maxspeed + 3
\* gradient descent: values at scale 4096, momentum and dampening in halves (0, 1)
SgdBuf(first, buf, g, mom, damp) == IF mom = 0 \/ first THEN g ELSE [i \in 1..Len(g) |-> (mom * buf[i]) \div 2 + g[i] \div (IF damp = 1 THEN 2 ELSE 1)]
SgdStep(buf, g, mom, nesterov) == IF nesterov THEN [i \in 1..Len(g) |-> g[i] + (mom * buf[i]) \div 2] ELSE buf
\* adam with decays 1/2 and 3/4: m * 2^t and v * 4^t as integers; steps at scale 64, for a step size of one
AdamM(m, g, t) == [i \in 1..Len(g) |-> m[i] + (2 ^ (t - 1)) * g[i]]
AdamV(v, g, t) == [i \in 1..Len(g) |-> 3 * v[i] + (4 ^ (t - 1)) * g[i] * g[i]]
AdamOk(m, v, t, s) ==
  \A i \in 1..Len(m) :
    LET K == v[i] * (2 ^ t - 1) * (2 ^ t - 1)  L == 4096 * m[i] * m[i] * (4 ^ t - 3 ^ t)  a == Abs(s[i]) IN
    /\ (s[i] > 0 => m[i] > 0) /\ (s[i] < 0 => m[i] < 0)
    /\ Max(a - 1, 0) * Max(a - 1, 0) * K <= L /\ (v[i] # 0 => L <= (a + 1) * (a + 1) * K) /\ (v[i] = 0 => a <= 1)

(* ---- population under a budget of interactions ---- *)
Grow(total, made, budget, most) == total = 0 \/ ((made < budget) /\ (most = HUGE \/ total < most))
=============================================================================

--------------------------- MODULE PenaltiesTrace ---------------------------
EXTENDS Penalties, TraceBase
TInit == StartTrace
\* the value of argument a used for the k-th element of the result
Val(args, i, k) == args[i].data[1 + ItemOf(args[i], Unravel(CommonLead(args), k))]
Shape(out) == Chk("shape of the result", out.shape = CommonLead(Ev.args))
Points == 0..(Prod(Ev.out.shape) - 1)
Out(k) == Ev.out.data[k + 1]
A(i, k) == Val(Ev.args, i, k)
\* many amounts of violation of one constraint, from tiny to huge; numbers stand for the order of the real ones, and 0 for 0
SeriesOk ==
  LET n == Len(Ev.l)  Broken(k) == ~Holds(Ev.l[k], Ev.cmp, Ev.r)
      Far(j, k) == IF Ev.l[k] > Ev.r THEN Ev.l[j] >= Ev.l[k] ELSE Ev.l[j] <= Ev.l[k] IN
  /\ Chk("as many results as constraints", Len(Ev.v) = n /\ Len(Ev.step) = n /\ Len(Ev.line) = n)
  /\ Chk("an amount of violation iff the constraint is broken", \A k \in 1..n : Ev.v[k] >= 0 /\ (Ev.v[k] > 0 <=> Broken(k)))
  /\ Chk("the constant is charged iff the constraint is broken", \A k \in 1..n : Ev.step[k] = Signed(Ev.sign, IF Broken(k) THEN Ev.const ELSE 0))
  /\ Chk("multiples of the violation", \A k \in 1..n : Ev.line[k] = Signed(Ev.sign, Ev.v[k]))
  /\ Chk("further away is not cheaper", \A j, k \in 1..n : (Broken(k) /\ Far(j, k)) => Ev.v[j] >= Ev.v[k])
TNext ==
  /\ More /\ Consume
  /\ Ev.op = "series" \/ Chk("sensible calls are accepted", Alignable(Ev.args) = ~Ev.refused)
  /\ \/ Ev.op = "series" /\ SeriesOk
     \/ Ev.op # "series" /\ Ev.refused
     \/ Ev.op = "violation" /\ Shape(Ev.out) /\
          Chk("amount of violation", \A k \in Points : Out(k) = Violation(A(1, k), Ev.cmp, A(2, k)))
     \/ Ev.op = "penalty" /\ Shape(Ev.out) /\
          Chk("amount of penalty", \A k \in Points : Out(k) = Penalty(A(1, k), Ev.cmp, A(2, k), Ev.sign, A(3, k), A(4, k), A(5, k), A(6, k)))
     \/ Ev.op = "barrier" /\ Shape(Ev.out) /\
          /\ Chk("barrier", \A k \in Points : BarrierOk(A(1, k), Ev.cmp, A(2, k), Ev.sign, A(3, k), A(4, k), Out(k)))
          /\ Chk("barriers grow towards the limit", \A j, k \in Points :
                LET P(q) == [room |-> Room(A(1, q), Ev.cmp, A(2, q)), up |-> Signed(Ev.sign, IF Out(q) = NINF /\ Ev.sign = "-" THEN -PINF ELSE Out(q))]
                IN (A(3, j) = A(3, k) /\ A(4, j) = A(4, k)) => Grows(P(j), P(k)))
=============================================================================

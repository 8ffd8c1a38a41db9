---------------------------- MODULE MCPenalties ----------------------------
(* All small constraints and settings: penalties charge violations only, are   *)
(* directed by their sign, and grow with the violation up to the cap.           *)
EXTENDS Penalties
VARIABLES x
Vals == {-2, -1, 0, 1, 3, PINF}
Set == [l : Vals, c : {"<=", ">=", "=="}, r : {-1, 0, 2}, lin : {0, 1, 3}, step : {0, 8}, p : {NONE, 1, 2, 3}, cap : {5, PINF}]
Init == x = <<>>
Next == x = <<>> /\ \E s \in Set : x' = <<s>>
Pen(s, l, sign) == Penalty(l, s.c, s.r, sign, s.lin, s.step, s.p, s.cap)
Ok == x # <<>> => LET s == x[1]  a == Pen(s, s.l, "+") IN
  /\ a >= 0 /\ Pen(s, s.l, "-") = Neg(a)
  /\ Holds(s.l, s.c, s.r) <=> Violation(s.l, s.c, s.r) = 0
  /\ Violation(s.l, s.c, s.r) = 0 => a = 0
  /\ (Violation(s.l, s.c, s.r) > 0 /\ s.step > 0) => a > 0
  /\ \A l \in Vals : Violation(l, s.c, s.r) >= Violation(s.l, s.c, s.r) => Pen(s, l, "+") >= a
=============================================================================

------------------------------ MODULE Penalties ------------------------------
(* Constraint violations, penalties and log barriers. Left- and right-hand      *)
(* sides and multipliers are counted in halves, amounts of penalty in eighths.  *)
EXTENDS Batching

PINF == 2000000001
NINF == -2000000001
NONE == 2000000007        \* an omitted exponent
Abs(x) == IF x < 0 THEN -x ELSE x
Diff(a, b) == IF a = PINF THEN PINF ELSE IF b = PINF THEN NINF ELSE IF a = NINF THEN NINF ELSE IF b = NINF THEN PINF ELSE a - b
Pos(x) == IF x < 0 THEN 0 ELSE x
Holds(l, c, r) == CASE c = "<=" -> l <= r [] c = ">=" -> l >= r [] c = "==" -> l = r
\* the amount by which the constraint is broken, in halves
Violation(l, c, r) ==
  IF Holds(l, c, r) THEN 0
  ELSE CASE c = "<=" -> Diff(l, r) [] c = ">=" -> Diff(r, l) [] c = "==" -> Abs(Diff(l, r))

Power(v, p) == IF v = PINF THEN PINF ELSE CASE p = 1 -> 4 * v [] p = 2 -> 2 * v * v [] p = 3 -> v * v * v
Times(m, v) == IF m = 0 \/ v = 0 THEN 0 ELSE IF v = PINF THEN PINF ELSE 2 * m * v
Plus(a, b) == IF a = PINF \/ b = PINF THEN PINF ELSE a + b
Least(a, b) == IF a < b THEN a ELSE b
Neg(a) == IF a = PINF THEN NINF ELSE -a
Signed(sign, a) == IF sign = "+" THEN a ELSE Neg(a)
\* linear in halves, step and cap in eighths
Penalty(l, c, r, sign, linear, step, p, cap) ==
  LET v == Violation(l, c, r)
      e == IF p = NONE THEN 0 ELSE Least(cap, Power(v, p))
  IN Signed(sign, Plus(Plus(Times(linear, v), IF v > 0 THEN step ELSE 0), e))

\* the room left before the limit of the constraint, in halves; barriers are given in thousandths
Room(l, c, r) == IF c = "<=" THEN r - l ELSE l - r
RECURSIVE Log2(_)
Log2(x) == IF x = 1 THEN 0 ELSE 1 + Log2(x \div 2)
RECURSIVE IsPower(_)
IsPower(x) == x = 1 \/ (x % 2 = 0 /\ IsPower(x \div 2))
BarrierOk(l, c, r, sign, sharp, cap, b) ==
  LET room == Room(l, c, r)
      up == IF sign = "+" THEN b ELSE IF b = NINF THEN PINF ELSE -b
  IN /\ room <= 0 => up = cap
     /\ up <= cap
     \* at a distance of 2^k the logarithm is k times 0.693147
     /\ (room > 0 /\ IsPower(room)) =>
          LET exact == -((Log2(room) - 1) * 693147) \div (1000 * sharp) IN
          IF exact > cap THEN up = cap ELSE Abs(up - exact) <= 2
\* two barriers which differ only in the room left
Grows(a, b) == a.room <= b.room => a.up >= b.up
=============================================================================

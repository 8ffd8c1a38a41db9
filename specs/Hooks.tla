------------------------------- MODULE Hooks -------------------------------
(* Lists of callbacks: the order of the calls, the arguments each receives,  *)
(* and the rules by which the returned items are accumulated.                *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES funcs,   \* sequence of callback identities
          hargs,   \* sequence of fixed positional arguments
          hkw      \* fixed keyword arguments: sequence of <<key, value>>, keys distinct

\* maps with string keys are sequences of <<key, value>> pairs in no particular order
Keys(m) == {m[i][1] : i \in 1..Len(m)}
Val(m, k) == LET i == CHOOSE i \in 1..Len(m) : m[i][1] = k IN m[i][2]
AsSet(m) == {m[i] : i \in 1..Len(m)}
Distinct(m) == \A i, j \in 1..Len(m) : i # j => m[i][1] # m[j][1]
Update(m, u) == SelectSeq(m, LAMBDA p : p[1] \notin Keys(u)) \o u

(* A return value is [t |-> "none"], [t |-> "dict", m], [t |-> "list", q] or *)
(* [t |-> "bad"]; the accumulated result adds [t |-> "error"].               *)
Add(acc, r) ==
  IF r.t = "none" \/ acc.t = "error" THEN acc
  ELSE IF r.t = "bad" THEN [t |-> "error"]
  ELSE IF acc.t = "none" THEN r
  ELSE IF acc.t # r.t THEN [t |-> "error"]
  ELSE IF r.t = "dict" THEN [t |-> "dict", m |-> Update(acc.m, r.m)]
  ELSE [t |-> "list", q |-> acc.q \o r.q]
RECURSIVE Accumulate(_, _)
Accumulate(acc, rs) == IF rs = <<>> THEN acc ELSE Accumulate(Add(acc, rs[1]), Tail(rs))
\* how many callbacks are called: all of them, or up to the one whose result cannot be added
RECURSIVE Called(_, _)
Called(acc, rs) == IF rs = <<>> \/ acc.t = "error" THEN 0 ELSE 1 + Called(Add(acc, rs[1]), Tail(rs))

SameResult(a, b) ==
  /\ a.t = b.t
  /\ a.t = "dict" => AsSet(a.m) = AsSet(b.m) /\ Distinct(b.m)
  /\ a.t = "list" => a.q = b.q

Without(q, i) == [j \in 1..(Len(q) - 1) |-> IF j < i THEN q[j] ELSE q[j + 1]]
InsertAt(q, i, x) == SubSeq(q, 1, i - 1) \o <<x>> \o SubSeq(q, i, Len(q))
Rev(q) == [j \in 1..Len(q) |-> q[Len(q) + 1 - j]]
Frame == hargs' = hargs /\ hkw' = hkw
DoAppend(x) == funcs' = Append(funcs, x) /\ Frame
DoInsert(i, x) == funcs' = InsertAt(funcs, i, x) /\ Frame          \* i in 1..Len+1
DoDelete(i) == i \in 1..Len(funcs) /\ funcs' = Without(funcs, i) /\ Frame
DoSet(i, x) == i \in 1..Len(funcs) /\ funcs' = [funcs EXCEPT ![i] = x] /\ Frame
DoExtend(q) == funcs' = funcs \o q /\ Frame
DoReverse == funcs' = Rev(funcs) /\ Frame
DoSlice(a, b) == funcs' = SubSeq(funcs, a, b) /\ Frame
DoArg(v) == hargs' = Append(hargs, v) /\ UNCHANGED <<funcs, hkw>>
DoKw(k, v) == hkw' = Update(hkw, <<<<k, v>>>>) /\ UNCHANGED <<funcs, hargs>>
=============================================================================

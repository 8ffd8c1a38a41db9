----------------------------- MODULE Structures -----------------------------
(***************************************************************************)
(* Batched containers: fixed-key memories, dictionaries, bounded           *)
(* double-ended lists, and bags.  A container is a batch of n independent  *)
(* elements, and every call names, per element, a key, a value and a mask. *)
(*                                                                         *)
(* c (configuration): kind in {"mem","dict","list","bag"}, n, dims and off *)
(*   (extents and offsets of the key components), cap, dt in               *)
(*   {"float","int","bool"}, scale (fixed-point unit of the values), vlen, *)
(*   verify, lo, hi (range of the bag values), fill.                       *)
(* s (state): the tuple of the n element states.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

ANYVAL == 2000000007   \* encoded NaN: what popping an absent float element gives

RECURSIVE Prod(_)
Prod(d) == IF d = <<>> THEN 1 ELSE Head(d) * Prod(Tail(d))
NumSlots(c) == Prod(c.dims)

RECURSIVE RowMajor(_, _)
RowMajor(k, d) == IF d = <<>> THEN 0 ELSE Head(k) * Prod(Tail(d)) + RowMajor(Tail(k), Tail(d))

Shifted(c, key) == [j \in 1..Len(c.dims) |-> key[j] - c.off[j]]
ValidKey(c, key) == \A j \in 1..Len(c.dims) : LET k == Shifted(c, key)[j] IN 0 <= k /\ k < c.dims[j]
Slot(c, key) == RowMajor(Shifted(c, key), c.dims) + 1

\* --------------------------------------------------------------- values
MaxI(a, b) == IF a >= b THEN a ELSE b
MinI(a, b) == IF a <= b THEN a ELSE b

Arith1(c, name, a, v, m) ==
  CASE name = "set" -> v
    [] name = "add" -> IF c.dt = "bool" THEN MaxI(a, v) ELSE a + v
    [] name = "sub" -> a - v
    [] name = "mul" -> IF c.dt = "bool" THEN MinI(a, v) ELSE (a * v) \div c.scale
    [] name = "div" -> IF v < 0 THEN ((-a) * c.scale) \div (-v) ELSE (a * c.scale) \div v   \* floating-point elements only
    [] name = "circ" -> (a + v) % m
Arith(c, name, a, v, m) == [j \in 1..c.vlen |-> Arith1(c, name, a[j], v[j], m[j])]

Updates == {"set", "add", "sub", "mul", "div", "circ"}

\* ------------------------------------------------- one element, one call
\* Every operator below describes one plain, unbatched element.
InitElem(c) ==
  CASE c.kind = "mem" -> [k \in 1..NumSlots(c) |-> [j \in 1..c.vlen |-> c.fill]]
    [] c.kind = "dict" -> [has |-> [k \in 1..NumSlots(c) |-> FALSE],
                           val |-> [k \in 1..NumSlots(c) |-> [j \in 1..c.vlen |-> 0]]]
    [] c.kind = "list" -> <<>>
    [] c.kind = "bag" -> <<>>

\* list indices may be negative
ListPos(x, k) == IF k >= 0 THEN k + 1 ELSE Len(x) + k + 1
ListHas(x, k) == -Len(x) <= k /\ k < Len(x)

KeyOk(c, x, key) == IF c.kind = "list" THEN ListHas(x, key[1]) ELSE ValidKey(c, key)

UpdElem(c, x, name, key, v, m) ==
  CASE c.kind = "mem" ->
         LET k == Slot(c, key) IN [x EXCEPT ![k] = Arith(c, name, @, v, m)]
    [] c.kind = "dict" ->
         LET k == Slot(c, key)
         IN IF name = "set"
            THEN [has |-> [x.has EXCEPT ![k] = TRUE], val |-> [x.val EXCEPT ![k] = v]]
            ELSE IF x.has[k] THEN [x EXCEPT !.val[k] = Arith(c, name, @, v, m)] ELSE x
    [] c.kind = "list" ->
         [x EXCEPT ![ListPos(x, key[1])] = Arith(c, name, @, v, m)]

RemoveAt(x, p) == SubSeq(x, 1, p - 1) \o SubSeq(x, p + 1, Len(x))
PosOf(x, v) == CHOOSE p \in 1..Len(x) : x[p] = v
Occurs(x, v) == \E p \in 1..Len(x) : x[p] = v

Fallback(c) == [j \in 1..c.vlen |-> IF c.dt = "float" THEN ANYVAL ELSE 0]

\* --------------------------------------------- the whole batch, one call
\* Targets(s, o): the elements which the call is to change
Targets(c, o) == {i \in 1..c.n : o.mask[i]}

Out(exc, s, phase) == [exc |-> exc, s |-> s, phase |-> phase]

UpdOutcome(c, s, phase, o) ==
  IF \A i \in Targets(c, o) : KeyOk(c, s[i], o.keys[i])
  THEN Out(FALSE, [i \in 1..c.n |-> IF o.mask[i] THEN UpdElem(c, s[i], o.name, o.keys[i], o.vals[i], o.mods[i])
                                    ELSE s[i]], phase)
  ELSE Out(TRUE, s, phase)

PushOutcome(c, s, phase, o) ==
  IF (c.kind = "bag" /\ phase) \/ \E i \in Targets(c, o) : Len(s[i]) >= c.cap
  THEN Out(TRUE, s, phase)
  ELSE Out(FALSE, [i \in 1..c.n |-> IF ~o.mask[i] THEN s[i]
                                    ELSE IF o.name = "appendleft" THEN <<o.vals[i]>> \o s[i]
                                    ELSE Append(s[i], o.vals[i])], phase)

\* popping: r is the tuple of the returned values
PopResultOk(c, s, o, r) ==
  \A i \in 1..c.n :
    IF s[i] = <<>> THEN o.mask[i] => r[i] = Fallback(c)
    ELSE CASE o.name = "pop" /\ c.kind = "list" -> r[i] = s[i][Len(s[i])]
           [] o.name = "popleft" -> r[i] = s[i][1]
           [] OTHER -> Occurs(s[i], r[i])
PopState(c, s, o, r) ==
  [i \in 1..c.n |-> IF ~o.mask[i] \/ s[i] = <<>> THEN s[i]
                    ELSE IF c.kind = "bag" THEN RemoveAt(s[i], PosOf(s[i], r[i]))
                    ELSE IF o.name = "pop" THEN SubSeq(s[i], 1, Len(s[i]) - 1)
                    ELSE Tail(s[i])]
PopFails(c, s, o) == c.verify /\ \E i \in Targets(c, o) : s[i] = <<>>

ClearState(c, s, o) ==
  [i \in 1..c.n |-> IF ~o.mask[i] THEN s[i]
                    ELSE IF c.kind = "dict" THEN [s[i] EXCEPT !.has = [k \in 1..NumSlots(c) |-> FALSE]]
                    ELSE <<>>]

\* reading never changes anything; GetOk says which results are right
GetFails(c, s, o) ==
  IF c.kind = "list" THEN ~o.hasdef /\ \E i \in 1..c.n : ~ListHas(s[i], o.keys[i][1])
  ELSE \E i \in 1..c.n : ~ValidKey(c, o.keys[i])
GetOk(c, s, o, r) ==
  \A i \in 1..c.n :
    CASE c.kind = "mem" -> r[i] = s[i][Slot(c, o.keys[i])]
      [] c.kind = "dict" -> LET k == Slot(c, o.keys[i])
                            IN IF s[i].has[k] THEN r[i] = s[i].val[k] ELSE (o.hasdef => r[i] = o.vals[i])
      [] c.kind = "list" -> IF ListHas(s[i], o.keys[i][1]) THEN r[i] = s[i][ListPos(s[i], o.keys[i][1])]
                            ELSE r[i] = o.vals[i]
ContainsOk(c, s, o, r) == \A i \in 1..c.n : r[i] = s[i].has[Slot(c, o.keys[i])]

\* what can be seen of the whole container after a call
ObsOk(c, s, obs) ==
  CASE c.kind = "mem" -> \A i \in 1..c.n : \A k \in 1..NumSlots(c) : obs.val[i][k] = s[i][k]
    [] c.kind = "dict" -> \A i \in 1..c.n : \A k \in 1..NumSlots(c) :
                             /\ obs.has[i][k] = s[i].has[k]
                             /\ s[i].has[k] => obs.val[i][k] = s[i].val[k]
    [] c.kind = "list" -> \A i \in 1..c.n : obs.len[i] = Len(s[i]) /\ obs.val[i] = s[i]
    [] c.kind = "bag" -> \A i \in 1..c.n : obs.len[i] = Len(s[i])

\* ---------------------------------------------------------------- actions
VARIABLES cfg, s, phase
vars == <<cfg, s, phase>>

Update(o) == LET u == UpdOutcome(cfg, s, phase, o) IN s' = u.s /\ phase' = u.phase /\ cfg' = cfg
Push(o) == LET u == PushOutcome(cfg, s, phase, o) IN s' = u.s /\ phase' = u.phase /\ cfg' = cfg
Pop(o, r) ==
  /\ cfg' = cfg
  /\ IF PopFails(cfg, s, o)
     THEN s' = s /\ phase' \in (IF cfg.kind = "bag" THEN {phase, TRUE} ELSE {phase})
     ELSE /\ PopResultOk(cfg, s, o, r)
          /\ s' = PopState(cfg, s, o, r)
          /\ phase' = (phase \/ cfg.kind = "bag")
Clear(o) == s' = ClearState(cfg, s, o) /\ phase' = FALSE /\ cfg' = cfg
Read == UNCHANGED vars
=============================================================================

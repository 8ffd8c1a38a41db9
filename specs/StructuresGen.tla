--------------------------- MODULE StructuresGen ---------------------------
(* Random behaviours of Structures, printed as operation sequences.  The     *)
(* guards keep the arithmetic exact, so that every value is representable.   *)
EXTENDS Structures, TLC, Json, Randomization
CONSTANT Depth
VARIABLE hist

One(S) == CHOOSE x \in RandomSubset(1, S) : TRUE

KeyShapes == {[dims |-> <<3>>, off |-> <<0>>], [dims |-> <<4>>, off |-> <<2>>], [dims |-> <<2, 3>>, off |-> <<0, 0>>],
              [dims |-> <<2, 2>>, off |-> <<1, 1>>], [dims |-> <<3, 2>>, off |-> <<5, -1>>], [dims |-> <<1>>, off |-> <<-1>>],
              [dims |-> <<2, 1, 2>>, off |-> <<1, 0, 3>>]}
Batches == {[n |-> 1, bshape |-> <<>>, batched |-> FALSE], [n |-> 1, bshape |-> <<1>>, batched |-> TRUE],
            [n |-> 3, bshape |-> <<3>>, batched |-> TRUE], [n |-> 4, bshape |-> <<2, 2>>, batched |-> TRUE],
            [n |-> 6, bshape |-> <<2, 3>>, batched |-> TRUE], [n |-> 6, bshape |-> <<1, 3, 2>>, batched |-> TRUE],
            [n |-> 8, bshape |-> <<2, 2, 2>>, batched |-> TRUE]}
Values == {[vlen |-> 1, vshape |-> <<>>], [vlen |-> 2, vshape |-> <<2>>], [vlen |-> 4, vshape |-> <<2, 2>>]}
Types == {[dt |-> "float", scale |-> 16, fill |-> 32], [dt |-> "int", scale |-> 1, fill |-> 5], [dt |-> "bool", scale |-> 1, fill |-> 0]}
Bags == {[lo |-> 0, hi |-> 4], [lo |-> 3, hi |-> 6], [lo |-> -2, hi |-> 2], [lo |-> 1, hi |-> 9]}

MemCfgs == {[kind |-> k, verify |-> w, cap |-> 0, lo |-> 0, hi |-> 0] @@ ks @@ b @@ v @@ t :
               w \in BOOLEAN, k \in {"mem", "dict"}, ks \in KeyShapes, b \in Batches, v \in Values, t \in Types}
ListCfgs == {[kind |-> "list", verify |-> w, cap |-> c, lo |-> 0, hi |-> 0, dims |-> <<c>>, off |-> <<0>>] @@ b @@ v @@ t :
               w \in BOOLEAN, c \in 1..4, b \in Batches, v \in Values, t \in Types}
BagCfgs == {[kind |-> "bag", verify |-> w, cap |-> c, dims |-> <<c>>, off |-> <<0>>, dt |-> "int", scale |-> 1, fill |-> 0,
             vlen |-> 1, vshape |-> <<>>] @@ b @@ r : w \in BOOLEAN, c \in 1..6, b \in Batches, r \in Bags}

NamesFor(c) ==
  CASE c.kind = "bag" -> <<"push", "push", "push", "pop", "pop", "clear">>
    [] c.kind = "list" /\ c.dt = "bool" -> <<"append", "appendleft", "pop", "popleft", "set", "add", "mul", "get", "clear", "append", "appendleft">>
    [] c.kind = "list" -> <<"append", "appendleft", "append", "appendleft", "pop", "popleft", "set", "add", "sub", "mul", IF c.dt = "float" THEN "div" ELSE "mul", "get", "clear">>
    [] c.dt = "bool" -> <<"set", "set", "add", "mul", "get">> \o (IF c.kind = "dict" THEN <<"clear", "contains">> ELSE <<>>)
    [] OTHER -> <<"set", "set", "add", "sub", "mul", IF c.dt = "float" THEN "div" ELSE "sub", "get">> \o (IF c.kind = "dict" THEN <<"clear", "contains">> ELSE <<"circ">>)

\* mostly valid keys, sometimes one just outside
KeySet(c) == IF c.kind = "list" THEN {<<k>> : k \in (-c.cap)..(c.cap - 1)}
             ELSE {[j \in 1..Len(c.dims) |-> c.off[j] + f[j]] : f \in [1..Len(c.dims) -> 0..2]}
GoodKeys(c) == IF c.kind = "list" THEN {<<k>> : k \in -1..1} ELSE {k \in KeySet(c) : ValidKey(c, k)}
BadKeys(c) == IF c.kind = "list" THEN {<<k>> : k \in {c.cap, c.cap + 1, -c.cap - 1, 2 * c.cap, 7}}
              ELSE {[j \in 1..Len(c.dims) |-> c.off[j] + IF j = 1 THEN -1 ELSE 0],
                    [j \in 1..Len(c.dims) |-> c.off[j] + IF j = Len(c.dims) THEN c.dims[j] ELSE 0]}

ValSet(c, name) ==
  CASE c.kind = "bag" -> c.lo..(c.hi - 1)
    [] c.dt = "bool" -> {0, 1}
    [] name = "div" -> {-c.scale, c.scale, 2 * c.scale}
    [] name = "mul" -> {-c.scale, 0, 2 * c.scale, 3 * c.scale}
    [] OTHER -> {-2 * c.scale, c.scale, 3 * c.scale, 5 * c.scale}

Exact1(c, name, a, v) ==
  CASE name = "mul" -> (a * v) % c.scale = 0 /\ a < 60000 /\ a > -60000
    [] name = "div" -> c.dt = "float" => (a * c.scale) % (IF v < 0 THEN -v ELSE v) = 0
    [] OTHER -> a < 60000 /\ a > -60000

ExactNow(c, o) ==
  \A i \in 1..c.n : (o.mask[i] /\ KeyOk(c, s[i], o.keys[i])) =>
     \A j \in 1..c.vlen :
       CASE c.kind = "mem" -> Exact1(c, o.name, s[i][Slot(c, o.keys[i])][j], o.vals[i][j])
         [] c.kind = "dict" -> Exact1(c, o.name, s[i].val[Slot(c, o.keys[i])][j], o.vals[i][j])
         [] OTHER -> Exact1(c, o.name, s[i][ListPos(s[i], o.keys[i][1])][j], o.vals[i][j])

\* without verification only valid calls are made
Allowed(o) ==
  cfg.verify \/
  CASE o.name \in Updates -> \A i \in 1..cfg.n : KeyOk(cfg, s[i], o.keys[i])
    [] o.name \in {"append", "appendleft", "push"} -> ~PushOutcome(cfg, s, phase, o).exc
    [] o.name \in {"pop", "popleft"} -> \A i \in 1..cfg.n : s[i] # <<>>
    [] o.name = "get" -> ~GetFails(cfg, s, o)
    [] o.name = "contains" -> \A i \in 1..cfg.n : ValidKey(cfg, o.keys[i])
    [] OTHER -> TRUE

Init == /\ \E c \in RandomSubset(40, MemCfgs) \cup RandomSubset(60, ListCfgs) \cup RandomSubset(40, BagCfgs) : cfg = c
        /\ s = [i \in 1..cfg.n |-> InitElem(cfg)] /\ phase = FALSE /\ hist = <<>>

Next ==
  /\ Len(hist) < Depth
  /\ \E q \in RandomSubset(1, 1..Len(NamesFor(cfg))), d \in RandomSubset(1, 1..24), sm \in RandomSubset(1, 1..4) :
     \E mask \in (IF sm = 1 THEN RandomSubset(1, [1..cfg.n -> BOOLEAN]) ELSE {[i \in 1..cfg.n |-> TRUE]}) :
     LET name == NamesFor(cfg)[q] IN
     \E gk \in RandomSubset(1, [1..cfg.n -> GoodKeys(cfg)]), bk \in RandomSubset(1, BadKeys(cfg)), bi \in RandomSubset(1, 1..cfg.n),
        same \in RandomSubset(1, BOOLEAN), hasdef \in RandomSubset(1, BOOLEAN) :
     \E vs \in {[i \in 1..cfg.n |-> [j \in 1..cfg.vlen |-> One(ValSet(cfg, name))]]} :
       LET ks0 == IF same THEN [i \in 1..cfg.n |-> gk[1]] ELSE gk
           ks == IF d <= 3 THEN [ks0 EXCEPT ![bi] = bk] ELSE ks0
           full == [i \in 1..cfg.n |-> TRUE]
           o == [name |-> name, keys |-> ks, vals |-> vs, mods |-> [i \in 1..cfg.n |-> [j \in 1..cfg.vlen |-> 4 * cfg.scale]],
                 mask |-> IF name \in {"get", "contains"} THEN full ELSE IF name = "clear" /\ cfg.kind = "bag" THEN full ELSE mask,
                 hasdef |-> (name = "get" /\ hasdef), sm |-> sm, same |-> same, form |-> d]
       IN /\ Allowed(o)
          /\ hist' = Append(hist, o)
          /\ CASE name \in Updates -> ExactNow(cfg, o) /\ Update(o)
               [] name \in {"append", "appendleft", "push"} -> Push(o)
               [] name \in {"pop", "popleft"} ->
                    \E r \in {[i \in 1..cfg.n |-> IF s[i] = <<>> THEN Fallback(cfg)
                                                  ELSE IF name = "pop" THEN s[i][Len(s[i])] ELSE s[i][1]]} : Pop(o, r)
               [] name = "clear" -> Clear(o)
               [] OTHER -> Read

Emit == Len(hist) = Depth => PrintT("@@GEN " \o ToJson([cfg |-> cfg, ops |-> hist]))
=============================================================================

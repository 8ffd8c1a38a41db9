----------------------------- MODULE BatchesGen -----------------------------
(* Random histories over batches, printed as programs for the driver.        *)
EXTENDS Batches, TLC, Json, Randomization
CONSTANTS Depth, MaxH
VARIABLE hist
One(S) == CHOOSE x \in RandomSubset(1, S) : TRUE
Names == <<"set_values", "set_values", "access_values", "access_values", "set_evals", "forget_evals", "evaluate", "evaluate",
           "slice", "slice", "sol", "sol", "split", "take", "take", "clone", "concat", "read", "forbidden_write", "bad_index", "is_evaluated",
           "sol_set", "sol_set_evals", "create">>
V(c) == IF c.obj THEN [1..One(0..3) -> 0..6] ELSE [1..2 -> 0..6]
RV(c) == One(V(c))
E(c) == One([1..Width(c) -> -3..9])
Init == /\ \E o \in 1..2, d \in 0..2, ob \in BOOLEAN, n \in 1..4 :
             /\ cfg = [nobj |-> o, ndata |-> d, obj |-> ob]
             /\ \E v \in {[k \in 1..n |-> RV([obj |-> ob])]} :
                  /\ stores = <<[v |-> v, e |-> [k \in 1..n |-> Unknown(cfg)]]>>
                  /\ hs = <<[st |-> 1, rows |-> Iota(n)]>>
                  /\ hist = <<[op |-> "create", vals |-> v]>>
Z(ps) == [k \in 1..Len(ps) |-> ps[k] - 1]
Slices(n) == {[a |-> a, b |-> b, s |-> s] : a \in 0..n, b \in 0..n, s \in 1..2}
SlicePos(x) == LET m == IF x.b <= x.a THEN 0 ELSE ((x.b - x.a - 1) \div x.s) + 1 IN [k \in 1..m |-> x.a + (k - 1) * x.s + 1]
\* sequences of positions without repetition
Subs(n) == {f \in UNION {[1..m -> 1..n] : m \in 1..(IF n < 3 THEN n ELSE 3)} : \A i, j \in DOMAIN f : i # j => f[i] # f[j]}
AnySubs(n) == UNION {[1..m -> 1..n] : m \in 1..(IF n < 3 THEN n ELSE 3)}
Rec(r) == hist' = Append(hist, r)
Next ==
  /\ Len(hist) < Depth /\ cfg' = cfg
  /\ \E q \in RandomSubset(1, 1..Len(Names)), h \in RandomSubset(1, 1..Len(hs)), all \in RandomSubset(1, BOOLEAN), keep \in RandomSubset(1, BOOLEAN), f \in RandomSubset(1, 0..9) :
     LET name == Names[q]  n == Size(h) IN
     \E ps \in (IF all \/ n = 0 THEN {AllPos(h)} ELSE RandomSubset(1, Subs(n))) :
     \E vs \in {[k \in 1..Len(ps) |-> RV(cfg)]}, es \in {[k \in 1..Len(ps) |-> E(cfg)]} :
     CASE name = "set_values" /\ n > 0 -> SetValues(h, ps, vs) /\ Rec([op |-> name, h |-> h, ps |-> Z(ps), all |-> all, vals |-> vs, f |-> f])
       [] name = "access_values" /\ n > 0 -> AccessValues(h, keep, ps, vs) /\ Rec([op |-> name, h |-> h, ps |-> Z(ps), all |-> all, vals |-> vs, keep |-> keep, f |-> f])
       [] name = "set_evals" /\ n > 0 -> SetEvals(h, ps, es) /\ Rec([op |-> name, h |-> h, ps |-> Z(ps), all |-> all, evs |-> es, f |-> f])
       [] name = "forget_evals" /\ n > 0 -> ForgetEvals(h, ps) /\ Rec([op |-> name, h |-> h, ps |-> Z(ps), all |-> all])
       [] name = "evaluate" /\ n > 0 -> Evaluate(h) /\ Rec([op |-> name, h |-> h])
       [] name = "slice" /\ Len(hs) < MaxH -> \E x \in RandomSubset(1, Slices(n)) : View(h, SlicePos(x)) /\ Rec([op |-> name, h |-> h, a |-> x.a, b |-> x.b, s |-> x.s, ps |-> Z(SlicePos(x)), f |-> f])
       [] name = "sol" /\ n > 0 /\ Len(hs) < MaxH -> \E i \in RandomSubset(1, 1..n) : View(h, <<i>>) /\ Rec([op |-> name, h |-> h, ps |-> <<i - 1>>, neg |-> keep, n |-> n])
       [] name = "split" /\ n > 0 /\ Len(hs) + 3 <= MaxH -> \E k \in RandomSubset(1, 1..3) :
            \E parts \in {IF keep THEN [j \in 1..k |-> LET base == n \div k  rest == n % k
                                                          lo == (j - 1) * base + (IF j - 1 < rest THEN j - 1 ELSE rest)
                                                          sz == base + (IF j <= rest THEN 1 ELSE 0)
                                                      IN [m \in 1..sz |-> lo + m]]
                          ELSE LET ms == IF n <= 3 THEN k ELSE 2 IN [j \in 1..((n + ms - 1) \div ms) |-> [m \in 1..(IF j * ms <= n THEN ms ELSE n - (j - 1) * ms) |-> (j - 1) * ms + m]]} :
              /\ Len(parts) <= 3
              /\ Views(h, parts) /\ Rec([op |-> name, h |-> h, num |-> IF keep THEN k ELSE 0, maxsize |-> IF keep THEN 0 ELSE (IF n <= 3 THEN k ELSE 2)])
       [] name = "take" /\ n > 0 /\ Len(hs) < MaxH -> \E p2 \in RandomSubset(1, AnySubs(n)) : Copy(h, p2) /\ Rec([op |-> name, h |-> h, ps |-> Z(p2), f |-> f])
       [] name = "clone" /\ Len(hs) < MaxH -> Copy(h, AllPos(h)) /\ Rec([op |-> name, h |-> h, f |-> f, ps |-> Z(AllPos(h))])
       [] name = "concat" /\ Len(hs) < MaxH -> \E qq \in RandomSubset(1, AnySubs(Len(hs))) : Size(qq[1]) > 0 /\ Concat(qq) /\ Rec([op |-> name, q |-> qq, f |-> f])
       [] name = "read" -> NoChange /\ Rec([op |-> name, h |-> h, f |-> f])
       [] name = "forbidden_write" /\ n > 0 -> NoChange /\ Rec([op |-> name, h |-> h, f |-> f])
       [] name = "bad_index" -> NoChange /\ Rec([op |-> name, h |-> h, i |-> IF keep THEN n + (f % 2) ELSE -n - 1])
       [] name = "is_evaluated" /\ n > 0 -> \E g \in {g \in 1..Len(hs) : Size(g) = 1} : NoChange /\ Rec([op |-> name, h |-> g])
       [] name = "sol_set" /\ n > 0 -> \E i \in RandomSubset(1, 1..n) : SetValues(h, <<i>>, <<vs[1]>>) /\ Rec([op |-> name, h |-> h, ps |-> <<i - 1>>, vals |-> <<vs[1]>>, f |-> f])
       [] name = "sol_set_evals" /\ n > 0 -> \E i \in RandomSubset(1, 1..n) : SetEvals(h, <<i>>, <<es[1]>>) /\ Rec([op |-> name, h |-> h, ps |-> <<i - 1>>, evs |-> <<es[1]>>, f |-> f])
       [] name = "create" /\ Len(hs) < MaxH -> \E m \in RandomSubset(1, 1..3) : \E v \in {[k \in 1..m |-> RV(cfg)]} : Create(v) /\ Rec([op |-> name, vals |-> v])
       [] OTHER -> NoChange /\ Rec([op |-> "read", h |-> h, f |-> f])
Emit == Len(hist) = Depth => PrintT("@@GEN " \o ToJson([cfg |-> cfg, ops |-> hist]))
=============================================================================

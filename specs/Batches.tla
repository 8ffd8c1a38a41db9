------------------------------ MODULE Batches ------------------------------
(***************************************************************************)
(* Batches of solutions.  A store holds rows, each with decision values    *)
(* and an evaluation (objectives followed by auxiliary data, NAN meaning    *)
(* not known).  A handle (a batch, a slice, a piece or a single solution)   *)
(* is a view: a store together with the sequence of its rows it exposes.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

NAN == 2000000007

\* the objective functions used by the evaluations of the driver, in the same order
\* (values are integers; aux data: the number of values, and the first value)
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
FirstOr0(q) == IF q = <<>> THEN 0 ELSE q[1]
EvalFn(c, v) == SubSeq(<<SumSeq(v), SumSeq(v) - 3 * FirstOr0(v)>>, 1, c.nobj)
                \o SubSeq(<<Len(v), FirstOr0(v)>>, 1, c.ndata)
Width(c) == c.nobj + c.ndata
Unknown(c) == [j \in 1..Width(c) |-> NAN]

VARIABLES cfg, stores, hs
vars == <<cfg, stores, hs>>

Rows(h) == hs[h].rows
Size(h) == Len(hs[h].rows)
ValsOf(st, x) == [k \in 1..Len(x.rows) |-> st[x.st].v[x.rows[k]]]
EvalsOf(st, x) == [k \in 1..Len(x.rows) |-> st[x.st].e[x.rows[k]]]

\* replace, in the store of handle h, the values/evaluations of the exposed positions ps
Put(h, ps, vals, evs) ==
  LET x == hs[h]
      old == stores[x.st]
      pos(r) == {k \in 1..Len(ps) : x.rows[ps[k]] = r}
      last(S) == CHOOSE k \in S : \A j \in S : j <= k
      put(f, new) == [r \in 1..Len(f) |-> IF pos(r) = {} THEN f[r] ELSE new[last(pos(r))]]
  IN [stores EXCEPT ![x.st] = [v |-> put(old.v, vals), e |-> put(old.e, evs)]]

Same(h, ps) == [k \in 1..Len(ps) |-> ValsOf(stores, hs[h])[ps[k]]]
SameE(h, ps) == [k \in 1..Len(ps) |-> EvalsOf(stores, hs[h])[ps[k]]]
AllUnknown(ps) == [k \in 1..Len(ps) |-> Unknown(cfg)]
AllPos(h) == [k \in 1..Size(h) |-> k]
Iota(n) == [k \in 1..n |-> k]

NewStore(v, e) == stores' = Append(stores, [v |-> v, e |-> e])
                  /\ hs' = Append(hs, [st |-> Len(stores) + 1, rows |-> Iota(Len(v))])
NewView(x) == hs' = Append(hs, x) /\ UNCHANGED stores

\* ---------------------------------------------------------------- actions
Create(v) == NewStore(v, [k \in 1..Len(v) |-> Unknown(cfg)])
\* writing values: exactly the written solutions become not evaluated
SetValues(h, ps, vals) == stores' = Put(h, ps, vals, AllUnknown(ps)) /\ UNCHANGED hs
\* asking for write access to the values of a handle makes all solutions exposed by it not evaluated,
\* unless the evaluations are to be kept; then some of them are written
AccessValues(h, keep, ps, vals) ==
  LET vv == [k \in 1..Size(h) |-> LET S == {j \in 1..Len(ps) : ps[j] = k}
                                  IN IF S = {} THEN ValsOf(stores, hs[h])[k] ELSE vals[CHOOSE j \in S : TRUE]]
  IN stores' = Put(h, AllPos(h), vv, IF keep THEN SameE(h, AllPos(h)) ELSE AllUnknown(AllPos(h))) /\ UNCHANGED hs
SetEvals(h, ps, evs) == stores' = Put(h, ps, Same(h, ps), evs) /\ UNCHANGED hs
ForgetEvals(h, ps) == stores' = Put(h, ps, Same(h, ps), AllUnknown(ps)) /\ UNCHANGED hs
Evaluate(h) == stores' = Put(h, AllPos(h), Same(h, AllPos(h)), [k \in 1..Size(h) |-> EvalFn(cfg, ValsOf(stores, hs[h])[k])])
               /\ UNCHANGED hs
\* views: they share the rows
View(h, ps) == NewView([st |-> hs[h].st, rows |-> [k \in 1..Len(ps) |-> hs[h].rows[ps[k]]]])
Views(h, parts) == hs' = hs \o [j \in 1..Len(parts) |-> [st |-> hs[h].st,
                                   rows |-> [k \in 1..Len(parts[j]) |-> hs[h].rows[parts[j][k]]]]]
                   /\ UNCHANGED stores
\* copies: they are independent
Copy(h, ps) == NewStore(Same(h, ps), SameE(h, ps))
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
Concat(q) == NewStore(Flat([j \in 1..Len(q) |-> ValsOf(stores, hs[q[j]])]), Flat([j \in 1..Len(q) |-> EvalsOf(stores, hs[q[j]])]))
NoChange == UNCHANGED <<stores, hs>>

\* the pieces of a split: contiguous, in order, covering everything, sizes as documented
SplitSizesOk(n, parts, num, maxsize) ==
  /\ Flat(parts) = Iota(n)
  /\ num > 0 => /\ Len(parts) = num
                /\ \A a, b \in 1..num : Len(parts[a]) - Len(parts[b]) \in -1..1
  /\ maxsize > 0 => /\ \A a \in 1..Len(parts) : Len(parts[a]) <= maxsize /\ Len(parts[a]) > 0
                    /\ \A a \in 1..Len(parts)-1 : Len(parts[a]) = maxsize

\* ------------------------------------------------------------- properties
Evaluated(e) == \A j \in 1..cfg.nobj : e[j] # NAN
\* when evaluations come from evaluating only, what is displayed belongs to the values beside it
Belongs == \A i \in 1..Len(stores) : \A r \in 1..Len(stores[i].v) :
             Evaluated(stores[i].e[r]) => stores[i].e[r] = EvalFn(cfg, stores[i].v[r])
WellFormed == \A h \in 1..Len(hs) : \A k \in 1..Size(h) : hs[h].rows[k] \in 1..Len(stores[hs[h].st].v)
=============================================================================

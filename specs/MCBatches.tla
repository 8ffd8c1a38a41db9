----------------------------- MODULE MCBatches -----------------------------
(* Bounded exploration of Batches without caller-supplied evaluations.      *)
EXTENDS Batches
VARIABLE steps
CONSTANTS MaxSteps, MaxHandles
Vals == {<<0>>, <<1>>}
Init == /\ cfg = [nobj |-> 1, ndata |-> 0]
        /\ \E a, b \in Vals : stores = <<[v |-> <<a, b>>, e |-> <<Unknown(cfg), Unknown(cfg)>>]>>
        /\ hs = <<[st |-> 1, rows |-> <<1, 2>>]>>
        /\ steps = 0
PosSeqs(h) == {<<k>> : k \in 1..Size(h)} \cup {AllPos(h)} \cup (IF Size(h) = 2 THEN {<<2, 1>>, <<1, 1>>} ELSE {})
Next == /\ steps < MaxSteps /\ steps' = steps + 1 /\ cfg' = cfg
        /\ \E h \in 1..Len(hs) :
             \/ \E ps \in PosSeqs(h), w \in Vals : SetValues(h, ps, [k \in 1..Len(ps) |-> w])
             \/ \E ps \in PosSeqs(h), w \in Vals : AccessValues(h, FALSE, ps, [k \in 1..Len(ps) |-> w])
             \/ Evaluate(h)
             \/ \E ps \in PosSeqs(h) : ForgetEvals(h, ps)
             \/ Len(hs) < MaxHandles /\
                  (\/ \E ps \in PosSeqs(h) : View(h, ps) \/ Copy(h, ps)
                   \/ \E g \in 1..Len(hs) : Concat(<<h, g>>))
\* the values of one store change without another store changing (independence of copies)
OneStoreAtATime == [][\A i, j \in 1..Len(stores) : (i # j /\ stores'[i] # stores[i]) => stores'[j] = stores[j]]_vars
=============================================================================

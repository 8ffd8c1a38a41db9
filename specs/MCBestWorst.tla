---------------------------- MODULE MCBestWorst ----------------------------
EXTENDS BestWorst
CONSTANTS MaxEvals, NObj
vars == <<senses, best, worst, seen, given>>
Init == \E s \in [1..NObj -> {"min", "max"}] : Start(s)
Ev == IF NObj = 1 THEN {0, 1, 2, NaN} ELSE {0, 1, NaN}
RowSet == [id : 1..2, ev : [1..NObj -> Ev]]
Batches == {B \in SUBSET RowSet : B # {} /\ Cardinality(B) <= 2}
Next == /\ Len(given) < MaxEvals
        /\ \E rows \in Batches :
             \E b \in {f \in [Objs -> UNION {NewBest(i, rows) : i \in Objs}] : \A i \in Objs : f[i] \in NewBest(i, rows)},
                w \in {f \in [Objs -> UNION {NewWorst(i, rows) : i \in Objs}] : \A i \in Objs : f[i] \in NewWorst(i, rows)} :
               Evaluate(rows, b, w)
Spec == Init /\ [][Next]_vars
=============================================================================

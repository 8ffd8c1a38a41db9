--------------------------- MODULE MCSupervised ---------------------------
(* One process draws minibatches: all items are used equally often.          *)
EXTENDS Supervised
CONSTANTS MaxSize, MaxDraws
VARIABLES size, m, used, draws, passes
vars == <<left, size, m, used, draws, passes>>
Perms(S) == {s \in [1..Cardinality(S) -> S] : Cardinality(ToSet(s)) = Cardinality(S)}
Init == /\ size \in 1..MaxSize /\ m \in 1..(MaxSize + 1) /\ left = {} /\ used = [i \in 1..MaxSize |-> 0] /\ draws = 0 /\ passes = 0
Next ==
    /\ draws < MaxDraws /\ draws' = draws + 1 /\ UNCHANGED <<size, m>>
    /\ LET r == Open(size, left) IN
       \E S \in SUBSET r : \E batch \in Perms(S) :
          /\ Fits(size, m, left, batch)
          /\ left' = After(size, left, batch)
          /\ used' = [i \in 1..MaxSize |-> IF i \in S THEN used[i] + 1 ELSE used[i]]
          /\ passes' = IF left' = {} THEN passes + 1 ELSE passes
Spec == Init /\ [][Next]_vars
Even == \A i, j \in 1..size : used[i] - used[j] <= 1
Complete == left = {} => \A i \in 1..size : used[i] = passes
PerPass == draws = passes * ((size + m - 1) \div m) + (IF left = {} THEN 0 ELSE (size - Cardinality(left)) \div m)
=============================================================================

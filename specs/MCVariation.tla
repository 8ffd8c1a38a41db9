----------------------------- MODULE MCVariation -----------------------------
(* The operators as transitions satisfy what is claimed to be observable.       *)
EXTENDS Variation, TLC
CONSTANTS L, K, NP
VARIABLES kids, kind, done
\* parents with distinct genes, of different lengths for the splicing
Par == [i \in 1..NP |-> [g \in 1..L |-> i * 16 + g]]
Var == [i \in 1..NP |-> [g \in 1..((i % L) + 1) |-> i * 16 + g]]
Init == kids = <<>> /\ kind \in 1..(K + 1) /\ done = 0
Next == /\ done < 2 /\ done' = done + 1 /\ UNCHANGED kind
        /\ \E i, j \in 1..NP :
             IF kind <= K
             THEN \E cuts \in [1..kind -> (IF kind = 1 THEN 2..L ELSE 1..(L + 1))] :
                    kids' = kids \o Cross(Par[i], Par[j], Mask(L, cuts))
             ELSE \E a \in 0..(Len(Var[i]) - 1), b \in 0..(Len(Var[j]) - 1) : kids' = kids \o Splice(Var[i], Var[j], a, b)
Observable == IF kind <= K THEN InPairs("cut", Par, [k |-> kind], kids) ELSE InPairs("splice", Var, [k |-> 0], kids)
\* genes stay at their positions, and a pair has exactly the genes of two parents
Conserved == /\ kind <= K => \A i \in 1..Len(kids) : \A g \in 1..L : kids[i][g] % 16 = g
             /\ kind <= K /\ done > 0 => \A g \in 1..L : \E i, j \in 1..NP : {kids[1][g], kids[2][g]} = {Par[i][g], Par[j][g]}
             /\ kind > K /\ done > 0 => \E i, j \in 1..NP : SameBagV(kids[1] \o kids[2], Var[i] \o Var[j])
             /\ kind > K => \A i \in 1..Len(kids) : Len(kids[i]) > 0
=============================================================================

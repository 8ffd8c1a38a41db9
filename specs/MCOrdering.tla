----------------------------- MODULE MCOrdering -----------------------------
(* The definitions of Ordering fit together, for all fitnesses of small batches. *)
EXTENDS Ordering, TLC
CONSTANTS N, MaxV
VARIABLES f, sense, p
Perms(n) == {q \in [1..n -> 1..n] : IsPerm(q, n)}
Init == \E n \in 1..N : f \in [1..n -> 0..MaxV] /\ sense \in {"min", "max"} /\ p \in Perms(n)
Next == UNCHANGED <<f, sense, p>>
Neg(q) == [i \in 1..Len(q) |-> -q[i]]
Other(s) == IF s = "min" THEN "max" ELSE "min"
Sorted == SortedBestFirst(sense, f, p)
SortGivesTop == Sorted => /\ \A k \in 0..Len(f) : TopSet(sense, f, {p[i] : i \in 1..k})
                          /\ IsBest(sense, f, p[1]) /\ IsWorst(sense, f, p[Len(f)])
SenseIsNegation == Sorted <=> SortedBestFirst(Other(sense), Neg(f), p)
\* the levels handed out along a sorted order satisfy the ranking definitions, and sum to zero
Along(L(_, _)) == [i \in 1..Len(f) |-> LET k == CHOOSE k \in 1..Len(f) : p[k] = i IN L(Len(f), Len(f) - k)]
CLevel(n, k) == ((2 * k - (n - 1)) * UScale + n - 1) \div (2 * (n - 1))
LLevel(n, k) == (k * UScale) \div (n - 1)
Levels == Sorted /\ Len(f) > 1 =>
            /\ (Centered(sense, f, Along(CLevel)) /\ Abs(SumSeq(Along(CLevel))) <= Len(f))
            /\ Linear(sense, f, Along(LLevel))
            /\ Nes(sense, f, Along(NesLevel))
\* only the order matters: a strictly increasing change of the fitnesses changes nothing
Stretch(q) == [i \in 1..Len(q) |-> q[i] * q[i] * 3 + 1]
OrderOnly == Sorted <=> SortedBestFirst(sense, Stretch(f), p)
NesTable == \A n \in 2..40 : /\ \A k \in 1..(n - 1) : NesWeight(n, k) >= NesWeight(n, k - 1)
                             /\ Abs(SumSeq([k \in 1..n |-> NesLevel(n, k - 1)])) <= 2 * n
ASSUME NesTable
=============================================================================

------------------------------ MODULE MCPareto ------------------------------
EXTENDS Pareto, TLC
CONSTANTS N, M, MaxV
VARIABLES f, senses
Init == f = <<>> /\ senses \in [1..M -> {"min", "max"}]
Next == Len(f) < N /\ (\E r \in [1..M -> 0..MaxV] : f' = Append(f, r)) /\ UNCHANGED senses
All == LET Fr == Fronts(senses, f) IN
  \* the fronts partition the batch
  /\ UNION {Fr[r] : r \in 1..Len(Fr)} = 1..Len(f)
  /\ \A r, s \in 1..Len(Fr) : r # s => Fr[r] \cap Fr[s] = {}
  \* nobody dominates inside a front; everybody is dominated from the front before
  /\ \A r \in 1..Len(Fr) : \A i, j \in Fr[r] : ~Dom(senses, f[i], f[j])
  /\ \A r \in 2..Len(Fr) : \A i \in Fr[r] : \E j \in Fr[r - 1] : Dom(senses, f[j], f[i])
  /\ \A i, j \in 1..Len(f) : Dom(senses, f[i], f[j]) => RankIn(Fr, i) < RankIn(Fr, j)
  \* negating an objective and its sense changes nothing
  /\ LET g == [i \in 1..Len(f) |-> [f[i] EXCEPT ![1] = -f[i][1]]]
         s == [senses EXCEPT ![1] = IF senses[1] = "min" THEN "max" ELSE "min"]
     IN Fronts(s, g) = Fr
  \* some choice always exists, and no member of it is dominated by someone left out
  /\ \A n \in 1..Len(f) :
       LET Ts == {T \in SUBSET (1..Len(f)) : TakeOkSet(Fr, f, M, n, T)} IN
       /\ Ts # {}
       /\ \A T \in Ts : \A i \in T, j \in (1..Len(f)) \ T : RankIn(Fr, i) <= RankIn(Fr, j) /\ ~Dom(senses, f[j], f[i])
  \* the less-crowding relation has no cycle of length two or three
  /\ \A r \in 1..Len(Fr) : ~Tied(f, Fr[r], M) => \A i, j, k \in Fr[r] :
       LessCrowding(f, Fr[r], M, i, j) /\ LessCrowding(f, Fr[r], M, j, k) => ~LessCrowding(f, Fr[r], M, k, i)
=============================================================================

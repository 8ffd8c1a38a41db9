-------------------------- MODULE MCRunningStats --------------------------
(* Two statistics fed in every grouping: they hold what they were fed with,  *)
(* and nothing else.                                                         *)
EXTENDS RunningStats
CONSTANTS Values, MaxFed
VARIABLES stats, fed
Few == {<<0>>, <<2>>, <<-1>>}
Names == {"a", "b"}
vars == <<stats, fed>>

Batches == {<<>>} \cup {<<x>> : x \in Values} \cup {<<x, y>> : x, y \in Values}
Masks(n) == [1..n -> {0, 1}]

Init == stats = [o \in Names |-> Nothing] /\ fed = [o \in Names |-> <<>>]
Put(o, s, xs) == stats' = [stats EXCEPT ![o] = s] /\ fed' = [fed EXCEPT ![o] = xs]
Room(o, k) == Len(fed[o]) + k <= MaxFed
Next == \E o \in Names :
    \/ \E x \in Values : Room(o, 1) /\ Put(o, Joined(stats[o], One(x)), Append(fed[o], x))
    \/ \E xs \in Batches : Room(o, Len(xs)) /\ Put(o, Joined(stats[o], All(xs)), fed[o] \o xs)
    \/ \E xs \in Batches : \E m \in Masks(Len(xs)) :
        Room(o, Len(xs)) /\ Put(o, Joined(stats[o], All(Marked(xs, m))), fed[o] \o Marked(xs, m))
    \/ \E p \in Names : Room(o, Len(fed[p])) /\ Put(o, Joined(stats[o], stats[p]), fed[o] \o fed[p])
    \/ \E p \in Names : Put(o, stats[p], fed[p])
    \/ Put(o, Nothing, <<>>)
Spec == Init /\ [][Next]_vars

Exact == \A o \in Names : stats[o] = All(fed[o])
\* mean and variance do not depend on the order or grouping, and the variance is not negative
Sound == \A o \in Names : LET s == stats[o] IN
    s.n > 0 => \A i \in 1..Len(s.sum) : s.n * s.sq[i] >= s.sum[i] * s.sum[i]
=============================================================================

----------------------------- MODULE SearchRuns -----------------------------
(* Several searches run side by side in one process. The future of a search   *)
(* is a function of how it was set up (its "origin": problem, seed, algorithm *)
(* and settings) and of what has been done to it since; nothing else in the   *)
(* process has a say in it. So searches of one origin which have the same     *)
(* history look the same, whether they were built twice, cloned, restored, or *)
(* run amid other consumers of randomness.                                    *)
(*                                                                            *)
(* What is seen of a search is a record [vals, evs, marks, means]: the        *)
(* numbers naming its decision values, centres and deviations; the fitnesses  *)
(* of the population (one row per solution); the reported fitnesses which     *)
(* belong to some solution; and the reported averages. Fitnesses are written  *)
(* as integers whose order is that of the fitnesses and whose negation is the *)
(* negated fitness. A reported fitness is a pair <<objective, fitness>>.      *)
(*                                                                            *)
(* A run may also have been set up on the mirrored problem: an objective has  *)
(* been negated together with its sense. `mirror` has 1 or -1 per objective.  *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
  runs,     \* name of a run -> [origin, mirror, hist]
  looks     \* what a search of an origin with a history looks like: a set of <<origin, hist, look>>

Straight(m, evs) == [i \in 1..Len(evs) |-> [k \in 1..Len(evs[i]) |-> m[k] * evs[i][k]]]
Upright(m, reports) == [i \in 1..Len(reports) |-> <<reports[i][1], m[reports[i][1]] * reports[i][2]>>]

\* what a mirrored run would look like without its mirror
Unmirrored(m, see) == [vals |-> see.vals, evs |-> Straight(m, see.evs), marks |-> Upright(m, see.marks), means |-> Upright(m, see.means)]

\* what remains of a look when only the order of the fitnesses matters
Smaller(see, k, v) == Cardinality({u \in {see.evs[i][k] : i \in 1..Len(see.evs)} \cup {r[2] : r \in {see.marks[i] : i \in {j \in 1..Len(see.marks) : see.marks[j][1] = k}}} : u < v})
OrderOnly(see) ==
  [vals |-> see.vals,
   evs |-> [i \in 1..Len(see.evs) |-> [k \in 1..Len(see.evs[i]) |-> Smaller(see, k, see.evs[i][k])]],
   marks |-> [i \in 1..Len(see.marks) |-> <<see.marks[i][1], Smaller(see, see.marks[i][1], see.marks[i][2])>>],
   means |-> <<>>]

Look(m, ordinal, see) == LET u == Unmirrored(m, see) IN IF ordinal THEN OrderOnly(u) ELSE u

Start == runs = <<>> /\ looks = {}

\* a run of the given origin has been set up
Made(r, origin, mirror) == r \notin DOMAIN runs /\ runs' = [q \in DOMAIN runs \cup {r} |-> IF q = r THEN [origin |-> origin, mirror |-> mirror, hist |-> <<>>] ELSE runs[q]]

\* a run has been cloned, or saved and restored: there is one more run with the same past
Copied(r, copy) == r \in DOMAIN runs /\ copy \notin DOMAIN runs /\ runs' = [q \in DOMAIN runs \cup {copy} |-> IF q = copy THEN runs[r] ELSE runs[q]]

\* something has been done to a run
Done(r, what) == r \in DOMAIN runs /\ runs' = [runs EXCEPT ![r].hist = Append(@, what)]

\* looks already known for the present of a run
Known(r) == {e \in looks : e[1] = runs[r].origin /\ e[2] = runs[r].hist}
LooksRight(r, look) == \A e \in Known(r) : e[3] = look
Seen(r, look) == looks' = looks \cup {<<runs[r].origin, runs[r].hist, look>>}

\* at most one look per origin and history
Functional == \A a, b \in looks : (a[1] = b[1] /\ a[2] = b[2]) => a[3] = b[3]

\* the parts of a copy are shared among themselves as those of the original are, and none of them is a part of the original
SameSharing(a, b) == Len(a) = Len(b) /\ \A i, j \in 1..Len(a) : (a[i] = a[j]) <=> (b[i] = b[j])
Separate(a, b) == {a[i] : i \in 1..Len(a)} \cap {b[i] : i \in 1..Len(b)} = {}
=============================================================================

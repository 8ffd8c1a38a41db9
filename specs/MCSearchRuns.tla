---------------------------- MODULE MCSearchRuns ----------------------------
(* A small elitist search with its own generator, in all interleavings of     *)
(* building, mirroring, stepping, asking for more samples, copying and other  *)
(* consumption of the global generator. Its parts live in memory cells: a     *)
(* search, its population and its problem, the problem holding the generator. *)
(* With Ordinal, the fitness of a run may also have been stretched by a       *)
(* strictly increasing function, and looks keep only the order of fitnesses.  *)
EXTENDS SearchRuns, TLC
VARIABLES impl, global
vars == <<runs, looks, impl, global>>
CONSTANTS Names, Histories, Ordinal

F(origin, x) == IF origin = 1 THEN x * x - 3 * x ELSE 2 - x
\* fitness as computed by the problem of a run, and the comparison by its sense
Stretched(s, v) == IF s = 0 THEN v ELSE IF v > 0 THEN 4 * v + 1 ELSE v
Fit(r, s, x) == Stretched(s, F(runs[r].origin, x)) * runs[r].mirror[1]
Better(r, a, b) == IF runs[r].mirror[1] = 1 THEN a < b ELSE a > b
Turn(g) == (g * 3 + 1) % 7
See(r, p) == [vals |-> <<p.x, p.best>>, evs |-> <<<<Fit(r, p.st, p.x)>>>>, marks |-> <<<<1, Fit(r, p.st, p.best)>>>>, means |-> <<<<1, Fit(r, p.st, p.x)>>>>]

Init == Start /\ impl = <<>> /\ global = 0
With(r, v) == [q \in DOMAIN impl \cup {r} |-> IF q = r THEN v ELSE impl[q]]
Build == \E r \in Names, o \in {1, 2}, m \in {1, -1}, s \in IF Ordinal THEN {0, 1} ELSE {0} : Made(r, o, <<m>>) /\ impl' = With(r, [gen |-> o, x |-> o, best |-> o, st |-> s]) /\ UNCHANGED <<looks, global>>
Copy == \E r, c \in Names : Copied(r, c) /\ impl' = With(c, impl[r]) /\ UNCHANGED <<looks, global>>
Observe(r, p) == LET look == Look(runs[r].mirror, Ordinal, See(r, p)) IN looks' = looks \cup {<<runs[r].origin, runs'[r].hist, look>>}
Step == \E r \in DOMAIN runs : /\ Len(runs[r].hist) < Histories /\ Done(r, "step")
  /\ LET p == impl[r] g == Turn(p.gen) x == g % 4 IN
     LET n == [st |-> p.st, gen |-> g, x |-> x, best |-> IF Better(r, Fit(r, p.st, x), Fit(r, p.st, p.best)) THEN x ELSE p.best] IN impl' = [impl EXCEPT ![r] = n] /\ Observe(r, n)
  /\ UNCHANGED global
Sample == \E r \in DOMAIN runs : /\ Len(runs[r].hist) < Histories /\ Done(r, "sample")
  /\ LET n == [impl[r] EXCEPT !.gen = Turn(@)] IN impl' = [impl EXCEPT ![r] = n] /\ Observe(r, n)
  /\ UNCHANGED global
Noise == global' = (global + 1) % 2 /\ UNCHANGED <<runs, looks, impl>>
Next == Build \/ Copy \/ Step \/ Sample \/ Noise
=============================================================================

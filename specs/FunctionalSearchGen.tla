------------------------- MODULE FunctionalSearchGen -------------------------
(* Random histories of a functional search: asking any state given out so far, *)
(* with one of a few seeds, and telling any of them the outcome of any asking. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Depth
VARIABLES done, ns, np
Init == done = <<>> /\ ns = 1 /\ np = 0
Ask == np < 5 /\ \E s \in 1..ns, seed \in 1..2 : np' = np + 1 /\ ns' = ns /\ done' = Append(done, [op |-> "ask", s |-> s, seed |-> seed])
Tell == ns < 7 /\ \E s \in 1..ns, p \in 1..np, e \in 1..2 : ns' = ns + 1 /\ np' = np /\ done' = Append(done, [op |-> "tell", s |-> s, p |-> p, e |-> e])
Again == Len(done) > 0 /\ \E i \in 1..Len(done) :
  /\ done' = Append(done, done[i])
  /\ IF done[i].op = "ask" THEN np' = np + 1 /\ ns' = ns ELSE ns' = ns + 1 /\ np' = np
Next == Ask \/ Tell \/ Again
Emit == (Len(done) = Depth) => PrintT("@@GEN " \o ToJson(done))
=============================================================================

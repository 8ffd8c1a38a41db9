-------------------------- MODULE FunctionalSearch --------------------------
(* Functional searches: a state is a value. Asking and telling give new values *)
(* and leave every value given out earlier as it was. A state whose parameters *)
(* have extra leading dimensions is a batch of searches; the search at a       *)
(* leading index is the search having the items found at that index.           *)
EXTENDS Batching

VARIABLES states,   \* from the names of the states given out to their values
          answers   \* every question put so far, with its answer: <<question, answer>>

Start == states = <<>> /\ answers = {}

\* a question was answered before: the answer is the same
Consistent(question, answer) == \A a \in answers : a[1] = question => a[2] = answer
Answered(question, answer) == answers' = answers \cup {<<question, answer>>}
Given(name, value) == states' = (name :> value) @@ states
Unchanged(seen) == \A s \in DOMAIN states : s \in DOMAIN seen /\ seen[s] = states[s]

\* ---- batches of searches ----------------------------------------------------------------
\* a parameter which is to be a vector can be given as a single number, for all of its elements
ItemAt(a, idx, length) ==
  IF TooSmall(a) THEN [i \in 1..length |-> a.data[1]]
  ELSE Piece(a, ItemOf(a, idx), Prod(ItemShape(a)))
\* the parameters of the search at a leading index
SearchAt(args, idx, length) == [i \in 1..Len(args) |-> ItemAt(args[i], idx, length)]
\* one item for each search of the batch
Fits(out, lead) == Extras(out) <= Len(lead) /\ Lead(out) = SubSeq(lead, Len(lead) - Extras(out) + 1, Len(lead))

\* numbers are in millionths, and equal up to tol
Close(a, b, tol) == LET d == a - b IN (IF d < 0 THEN -d ELSE d) <= tol
CloseAll(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Close(a[i], b[i], tol)

\* the samples of one search: around its own centre, as wide as its own deviations
Around(rows, centre, stdev, tol) ==
  /\ \A r \in 1..Len(rows), i \in 1..Len(centre) : Close(rows[r][i], centre[i], 9 * stdev[i] + tol)
  /\ \A i \in 1..Len(centre) : (Len(rows) >= 8 /\ stdev[i] > 200 * tol) =>
       \E r \in 1..Len(rows) : LET d == rows[r][i] - centre[i] IN (IF d < 0 THEN -d ELSE d) >= stdev[i] \div 200
Mirrored(rows, centre, tol) ==
  /\ Len(rows) % 2 = 0
  /\ \A p \in 0..((Len(rows) \div 2) - 1) : \A i \in 1..Len(centre) : Close(rows[2 * p + 1][i] - centre[i], centre[i] - rows[2 * p + 2][i], tol)
=============================================================================

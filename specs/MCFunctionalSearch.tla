------------------------- MODULE MCFunctionalSearch -------------------------
(* Batches of searches under all histories of tells from any earlier state,    *)
(* against the searches of the batch run alone along the same branch. The rule *)
(* of a search is an arbitrary injective one: the new value names the old one, *)
(* the hyper-parameter and the input.                                          *)
EXTENDS FunctionalSearch
CONSTANTS Hyper, Inputs, Leads, MaxStates
VARIABLES hyper, branch   \* branch: of every state, the inputs told on the way to it

TheLeads == {<<>>, <<2>>, <<2, 2>>}
vars == <<states, answers, hyper, branch>>
Arg(lead, data) == [shape |-> lead, nd |-> 0, data |-> data]
Args == UNION {{Arg(l, d) : d \in [1..Prod(l) -> Hyper]} : l \in Leads}
InArgs == UNION {{Arg(l, d) : d \in [1..Prod(l) -> Inputs]} : l \in Leads}
Rule(v, h, x) == 100 * v + 10 * h + x

\* a step of the batch: of each search at the common leading index
Step(v, x) ==
  LET args == <<v, hyper, x>> lead == CommonLead(args) IN
  Arg(lead, [k \in 1..Prod(lead) |-> LET s == SearchAt(args, Unravel(lead, k - 1), 1) IN Rule(s[1][1], s[2][1], s[3][1])])
\* one search alone, along a branch
RECURSIVE Alone(_, _)
Alone(inputs, h) == IF inputs = <<>> THEN 0 ELSE Rule(Alone(SubSeq(inputs, 1, Len(inputs) - 1), h), h, inputs[Len(inputs)])

Init == Start /\ hyper \in Args /\ branch = <<>>
Begin == states = <<>> /\ Given(1, Arg(<<>>, <<0>>)) /\ branch' = (1 :> <<>>) /\ UNCHANGED <<answers, hyper>>
Tell == \E s \in DOMAIN states, x \in InArgs :
  LET n == Cardinality(DOMAIN states) + 1 v == Step(states[s], x) IN
  /\ n <= MaxStates /\ Alignable(<<states[s], hyper, x>>)
  /\ Consistent(<<states[s], x>>, v) /\ Answered(<<states[s], x>>, v) /\ Given(n, v)
  /\ branch' = (n :> Append(branch[s], x)) @@ branch /\ UNCHANGED hyper
Next == Begin \/ Tell
Spec == Init /\ [][Next]_vars

RunAlone == \A n \in DOMAIN states :
  LET lead == CommonLead(<<hyper>> \o branch[n]) IN
  Alignable(<<hyper>> \o branch[n]) =>
  \A k \in 0..(Prod(lead) - 1) :
    LET idx == Unravel(lead, k)
        seen == [i \in 1..Len(branch[n]) |-> ItemAt(branch[n][i], idx, 1)[1]]
    IN ItemAt(states[n], idx, 1)[1] = Alone(seen, ItemAt(hyper, idx, 1)[1])
Function == \A a, b \in answers : a[1] = b[1] => a[2] = b[2]
Values == [][\A s \in DOMAIN states : s \in DOMAIN states' /\ states'[s] = states[s]]_vars
=============================================================================

----------------------------- MODULE MCBatching -----------------------------
(* All leading shapes of two arguments: peeling leading dimensions one by one   *)
(* uses the same items as the alignment at the right ends.                      *)
EXTENDS Batching
CONSTANTS MaxSize, MaxLead
VARIABLES args
Leads == UNION {[1..n -> 1..MaxSize] : n \in 0..MaxLead}
Arg(l, nd) == [nd |-> nd, shape |-> l \o [k \in 1..nd |-> 2]]
Init == args = <<>>
Next == Len(args) < 2 /\ \E l \in Leads, nd \in 0..1 : args' = Append(args, Arg(l, nd))
Idx == LET lead == CommonLead(args) IN {Unravel(lead, k) : k \in 0..(Prod(lead) - 1)}
Same == (args # <<>> /\ Alignable(args)) =>
  /\ \A i \in 1..Len(args), idx \in Idx : Offset(Lead(args[i]), Peel(args[i], idx, 1, <<>>)) = ItemOf(args[i], idx)
  \* every item of an argument of full depth is used exactly once
  /\ \A i \in 1..Len(args) : Extras(args[i]) = Depth(args) => Cardinality({ItemOf(args[i], idx) : idx \in Idx}) = NumItems(args[i])
  /\ \A i \in 1..Len(args), idx \in Idx : ItemOf(args[i], idx) \in 0..(NumItems(args[i]) - 1)
  /\ \A idx \in Idx : Unravel(CommonLead(args), Offset(CommonLead(args), idx)) = idx
=============================================================================

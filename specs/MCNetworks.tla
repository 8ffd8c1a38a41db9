---------------------------- MODULE MCNetworks ----------------------------
(* Two policies side by side, and each of them alone with the same history:  *)
(* no policy notices the other.                                              *)
EXTENDS Networks
CONSTANTS MaxSteps
VARIABLES alone, steps   \* alone: for each policy, the inputs since its state was fresh
vars == <<nvars, alone, steps>>

Nets == {<<[kind |-> "rnn", in |-> 1, out |-> 1, act |-> "relu6"]>>,
         <<[kind |-> "linear", in |-> 1, out |-> 1, bias |-> TRUE], [kind |-> "rnn", in |-> 1, out |-> 1, act |-> "hardtanh"]>>,
         <<[kind |-> "linear", in |-> 1, out |-> 1, bias |-> FALSE], [kind |-> "act", act |-> "relu"]>>}
Vectors(n) == LET k == ParamsOf(n) IN {[i \in 1..k |-> 1], [i \in 1..k |-> IF i % 2 = 0 THEN -1 ELSE 2]}
Inputs == {<<<<0>>, <<1>>>>, <<<<2>>, <<-1>>>>}

Init == /\ net \in Nets /\ \E p, q \in Vectors(net) : params = <<p, q>>
        /\ state = <<FreshNet(net), FreshNet(net)>> /\ alone = <<<<>>, <<>>>> /\ steps = 0
Forget(is) == alone' = [i \in 1..2 |-> IF i \in is THEN <<>> ELSE alone[i]]
Next ==
    /\ steps < MaxSteps /\ steps' = steps + 1
    /\ \/ \E xs \in Inputs : Call(xs) /\ alone' = [i \in 1..2 |-> Append(alone[i], xs[i])]
       \/ \E is \in SUBSET {1, 2} : Reset(is) /\ Forget(is)
       \/ \E is \in SUBSET {1, 2}, p \in Vectors(net) : SetSome(is, <<p, p>>, TRUE) /\ Forget(is)
       \/ \E p, q \in Vectors(net) : SetAll(<<p, q>>, TRUE) /\ Forget({1, 2})
Spec == Init /\ [][Next]_vars

\* the state of a policy depends on its own parameters and inputs only
Separate == \A i \in 1..2 : \A x \in {<<0>>, <<3>>} :
    Net(net, params[i], x, state[i]).y = LET all == Play(net, params[i], Append(alone[i], x), FreshNet(net)) IN all[Len(all)]
=============================================================================

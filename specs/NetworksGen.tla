---------------------------- MODULE NetworksGen ----------------------------
(* Networks whose layers fit together, and ways of using several policies    *)
(* with the same network, for replay.                                        *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLayers, MaxOps
VARIABLES plan, width, size, kind, over   \* size: how much the layers so far can magnify

Widths == 1..3
ActNames == {"relu", "relu6", "hardtanh", "round"}
StackActs == {"none", "relu", "hardtanh", "round"}
Bounded(a) == a \in {"relu6", "hardtanh"}
Stacks == {<<[size |-> a, act |-> f, bias |-> b]>> : a \in Widths, f \in StackActs, b \in BOOLEAN}
          \cup {<<[size |-> a, act |-> f, bias |-> b], [size |-> c, act |-> g, bias |-> d]>> : a \in Widths, f \in StackActs, b \in BOOLEAN, c \in Widths, g \in StackActs, d \in BOOLEAN}
Uniform(hidden, n, out, f) == [k \in 1..(n + 1) |-> [size |-> IF k <= n THEN hidden ELSE out, act |-> f, bias |-> TRUE]]

GInit == /\ over = FALSE /\ size = 0 /\ kind = ""
         /\ \E w \in Widths, n \in 1..4 : width = w /\ plan = [width |-> w, n |-> n, net |-> <<>>, ops |-> <<>>]
Add(layer, w, s) == plan' = [plan EXCEPT !.net = Append(@, layer)] /\ width' = w /\ size' = s
Room == CASE kind \in {"linear", "rnn", "rnn2", "buffer", "apply"} -> size <= 3
          [] kind \in {"stack", "tied"} -> size <= 2
          [] kind = "control" -> size <= 1
          [] kind = "square" -> size = 0
          [] OTHER -> TRUE
Layers ==
    CASE kind = "linear" -> \E o \in Widths, b \in BOOLEAN : Add([kind |-> kind, in |-> width, out |-> o, bias |-> b], o, size + 1)
      [] kind \in {"rnn", "rnn2"} -> \E o \in Widths, f \in {"relu6", "hardtanh"} : Add([kind |-> "rnn", in |-> width, out |-> o, act |-> f], o, 1)
      [] kind = "stack" -> \E s \in Stacks : Add([kind |-> kind, in |-> width, stack |-> s], s[Len(s)].size, size + Len(s))
      [] kind = "control" -> \E o \in Widths, hid \in Widths, n \in 0..2, f \in {"relu", "hardtanh", "round"}, b \in BOOLEAN :
             Add([kind |-> kind, in |-> width, out |-> o, bias |-> b, hidden |-> hid, layers |-> n, act |-> f, stack |-> Uniform(hid, n, o, f)], o, size + n + 1)
      [] kind = "tied" -> Add([kind |-> kind, in |-> width], width, size + 2)
      [] kind = "buffer" -> Add([kind |-> kind, in |-> width], width, size + 1)
      [] kind = "act" -> \E f \in ActNames : Add([kind |-> kind, act |-> f], width, IF Bounded(f) THEN 0 ELSE size)
      [] kind = "clip" -> \E lo \in -3..2, gap \in 1..3 : Add([kind |-> kind, lo |-> lo, hi |-> lo + gap], width, 0)
      [] kind = "bin" -> \E lo \in -2..2, gap \in {2, 4} : Add([kind |-> kind, lo |-> lo, hi |-> lo + gap], width, 0)
      [] kind = "slice" -> \E lo \in 0..(width - 1) : \E hi \in (lo + 1)..width : Add([kind |-> kind, lo |-> lo, hi |-> hi], hi - lo, size)
      [] kind = "apply" -> \E op \in {"+", "-", "*"}, a \in {-2, 2, 3} : Add([kind |-> kind, op |-> op, arg |-> a], width, size + 1)
      [] kind = "square" -> Add([kind |-> "apply", op |-> "**", arg |-> 2], width, 2)

Some(n) == {is \in SUBSET (1..n) : is # {}}
AddOp ==
    \E op \in {"call", "reset", "set"}, is \in Some(plan.n), form \in {"mask", "list", "tensor", "int", "all"}, fresh \in BOOLEAN :
         plan' = [plan EXCEPT !.ops = Append(@, [op |-> op, is |-> [i \in 1..plan.n |-> i \in is], form |-> form, fresh |-> fresh])]
GNext ==
    \/ /\ kind = "" /\ Len(plan.net) < MaxLayers /\ UNCHANGED <<plan, width, size, over>>
       /\ kind' \in {"linear", "rnn", "rnn2", "stack", "control", "tied", "buffer", "act", "clip", "bin", "slice", "apply", "square"} \cup (IF plan.net = <<>> THEN {} ELSE {"stop"})
    \/ kind = "" /\ Len(plan.net) = MaxLayers /\ kind' = "stop" /\ UNCHANGED <<plan, width, size, over>>
    \/ /\ kind \notin {"", "stop"} /\ kind' = "" /\ UNCHANGED over
       /\ IF Room THEN Layers ELSE UNCHANGED <<plan, width, size>>
    \/ kind = "stop" /\ Len(plan.ops) < MaxOps /\ AddOp /\ UNCHANGED <<width, size, over, kind>>
    \/ Len(plan.ops) = MaxOps /\ ~over /\ over' = TRUE /\ UNCHANGED <<plan, width, size, kind>>
Emit == over => PrintT("@@GEN " \o ToJson(plan))
=============================================================================

--------------------------- MODULE MCRestarting ---------------------------
EXTENDS Restarting
CONSTANTS MaxOuter, MaxPop
VARIABLES rule, log   \* log: generations and sizes of the inner searches which are over
vars == <<rvars, rule, log>>

Rules == {[kind |-> "plain"], [kind |-> "grow", lim |-> 1, twice |-> 3], [kind |-> "grow", lim |-> -1, twice |-> 4], [kind |-> "list", sizes |-> <<2, 3>>]}
Init == rule \in Rules /\ Start(IF rule.kind = "list" THEN 2 ELSE 2) /\ log = <<>>
Next ==
    /\ outer < MaxOuter /\ UNCHANGED rule
    /\ \E base \in 0..1, odd \in 0..2, ended, again \in BOOLEAN :
         LET fits == [i \in 1..pop |-> IF i = 1 THEN base + odd ELSE base] IN
         /\ Step(rule, fits, ended, again, {fits[i] : i \in 1..pop}) /\ pop' <= MaxPop
         /\ log' = IF again THEN Append(log, [made |-> inner + 1, size |-> pop]) ELSE log
Spec == Init /\ [][Next]_vars

RECURSIVE Made(_)
Made(s) == IF s = <<>> THEN 0 ELSE s[1].made + Made(Tail(s))
Counted == outer = Made(log) + inner /\ starts = Len(log) + 1
Grown == rule.kind = "grow" => \A k \in 1..Len(log) : (IF k = Len(log) THEN pop ELSE log[k + 1].size) = (rule.twice * log[k].size) \div 2
Listed == rule.kind = "list" => pop = rule.sizes[1 + ((starts - 1) % 2)]
Plain == rule.kind = "plain" => pop = 2
BestStays == [][best' >= best]_vars
=============================================================================

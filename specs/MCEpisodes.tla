---------------------------- MODULE MCEpisodes ----------------------------
(* Simulators stepped together, some of them idle, until the policies have   *)
(* played their episodes. The scores kept along the way are the scores of    *)
(* the plays.                                                                *)
EXTENDS Episodes
CONSTANTS Sims, Rewards, MaxSteps, Rules
VARIABLES rule, m, plays, active, score, done, time, steps
vars == <<rule, m, plays, active, score, done, time, steps>>

SomeRules == {[episodes |-> 2, shift |-> 1, bonus |-> <<1, 3, 2>>], [episodes |-> 1, shift |-> 0, bonus |-> <<2, 2, 1>>],
              [episodes |-> 2, shift |-> 0, bonus |-> <<>>]}

Init ==
    /\ rule \in Rules /\ m \in 1..Sims
    /\ plays = [s \in 1..Sims |-> <<>>]
    /\ active = [s \in 1..Sims |-> s <= m]
    /\ score = [s \in 1..Sims |-> 0] /\ done = [s \in 1..Sims |-> 0] /\ time = [s \in 1..Sims |-> 0]
    /\ steps = 0

Step(r, e) ==
    /\ \E s \in 1..Sims : active[s]
    /\ plays' = [s \in 1..Sims |-> Append(plays[s], [r |-> r[s], end |-> e[s]])]
    /\ score' = [s \in 1..Sims |-> IF active[s] THEN score[s] + Gain(rule, r[s], time[s] + 1) ELSE score[s]]
    /\ time' = [s \in 1..Sims |-> IF e[s] THEN 0 ELSE time[s] + 1]
    /\ done' = [s \in 1..Sims |-> IF e[s] THEN done[s] + 1 ELSE done[s]]
    /\ active' = [s \in 1..Sims |-> active[s] /\ done'[s] < rule.episodes]
    /\ steps' = steps + Cardinality({s \in 1..Sims : active[s]})
    /\ UNCHANGED <<rule, m>>
Next == \E r \in [1..Sims -> Rewards], e \in [1..Sims -> BOOLEAN] : Len(plays[1]) < MaxSteps /\ Step(r, e)
Spec == Init /\ [][Next]_vars

Finished == \A s \in 1..Sims : ~active[s]
Scores == \A s \in 1..m : score[s] = Score(rule, plays[s])
RECURSIVE Length(_)
Length(s) == IF s = 0 THEN 0 ELSE Len(Upto(plays[s], rule.episodes)) + Length(s - 1)
Steps == Finished => /\ \A s \in 1..m : Complete(rule, plays[s])
                     /\ steps = Length(m)
Idle == \A s \in (m + 1)..Sims : score[s] = 0
=============================================================================

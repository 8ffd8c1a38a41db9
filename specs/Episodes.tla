----------------------------- MODULE Episodes -----------------------------
(* Policies playing episodes in simulators. A play is the sequence of steps  *)
(* of one simulator: r (reward) and end (whether the step ended an episode). *)
(* Scores are integers, in twentieths.                                       *)
EXTENDS Integers, Sequences, FiniteSets

(* The rule of a problem: episodes (how many are played for a score), shift  *)
(* (subtracted from every reward, in quarters), bonus: <<>> or <<t0, t1, b>> *)
(* (b in halves; from time t1 on it is given in full, and between t0 and t1  *)
(* in proportion).                                                           *)
Bonus(rule, t) ==
    IF rule.bonus = <<>> THEN 0
    ELSE LET t0 == rule.bonus[1]
             t1 == rule.bonus[2]
             b == 10 * rule.bonus[3]
         IN IF t >= t1 THEN b
            ELSE IF t >= t0 THEN (b * (t - t0)) \div (t1 - t0)
            ELSE 0
Gain(rule, r, t) == 20 * r - 5 * rule.shift + Bonus(rule, t)

Ends(play) == Cardinality({k \in 1..Len(play) : play[k].end})
\* the steps up to the end of the given number of episodes
RECURSIVE Upto(_, _)
Upto(play, episodes) ==
    IF episodes = 0 \/ play = <<>> THEN <<>>
    ELSE <<Head(play)>> \o Upto(Tail(play), IF Head(play).end THEN episodes - 1 ELSE episodes)

RECURSIVE Sum(_, _, _)
Sum(rule, play, t) ==   \* t: steps already made in the current episode
    IF play = <<>> THEN 0
    ELSE Gain(rule, Head(play).r, t + 1) + Sum(rule, Tail(play), IF Head(play).end THEN 0 ELSE t + 1)

\* the score (times the number of episodes) of the policy which made this play
Score(rule, play) == Sum(rule, Upto(play, rule.episodes), 0)
Complete(rule, play) == Ends(play) >= rule.episodes
=============================================================================

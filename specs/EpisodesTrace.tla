--------------------------- MODULE EpisodesTrace ---------------------------
(* Recorded plays. Cfg: rule, limit (longest episode, 0 if none), memory     *)
(* (whether actions tell how old the memory of the policy is), far (the      *)
(* limit of the actions, in tenths, or 0).                                   *)
EXTENDS Episodes, TraceBase

VARIABLES plays, played
R == Cfg.rule

TInit == StartTrace /\ plays = <<>> /\ played = <<0, 0>>

\* the time within its episode of the k-th step
RECURSIVE Since(_, _)
Since(play, k) == IF k = 1 \/ play[k - 1].end THEN 1 ELSE 1 + Since(play, k - 1)

\* a simulator is driven by one policy, which starts every episode afresh
Proper(play) ==
    LET own == Upto(play, R.episodes) IN
    /\ Chk("a simulator is driven by one policy", \A k \in 1..Len(play) : play[k].id = play[1].id)
    /\ Chk("a policy acts on the observations of its own simulator", \A k \in 1..Len(own) : own[k].acts)
    /\ Chk("a policy starts every episode without memory",
           ~Cfg.memory \/ \A k \in 1..Len(own) : own[k].age = Since(own, k))
    /\ Chk("actions stay within the limits of the simulator", \A k \in 1..Len(own) : Cfg.far = 0 \/ own[k].far = Cfg.far)
    /\ Chk("an episode ends when the simulator says so, or at the longest length",
           \A k \in 1..Len(own) : own[k].end = (own[k].over \/ (Cfg.limit > 0 /\ Since(own, k) = Cfg.limit)))

Fits(play, score) == LET d == 50 * Score(R, play) - score * R.episodes IN Complete(R, play) /\ d <= R.episodes /\ -d <= R.episodes
Of(id) == {p \in 1..Len(plays) : plays[p][1].id = id}

\* the possible numbers of steps, when these policies got these scores
RECURSIVE Lengths(_, _, _)
Lengths(ids, scores, k) ==
    IF k = 0 THEN {0}
    ELSE {a + Len(Upto(plays[p], R.episodes)) : a \in Lengths(ids, scores, k - 1), p \in {p \in Of(ids[k]) : Fits(plays[p], scores[k])}}

TNext ==
    /\ More /\ Consume
    /\ \/ /\ Ev.op = "run"   \* simulators which were driven together
          /\ \A s \in 1..Len(Ev.sims) : Proper(Ev.sims[s])
          /\ Chk("no more simulators than allowed", Ev.most = 0 \/ Len(Ev.sims) <= Ev.most)
          /\ Chk("simulators without a policy of their own are driven by a copy of another one",
                 \A s \in 1..Len(Ev.sims) : Len(Ev.sims[s]) > 0)
          /\ plays' = plays \o Ev.sims /\ UNCHANGED played
       \/ /\ Ev.op = "scored"
          /\ LET n == Len(Ev.ids) IN
             /\ Chk("the score of a policy is what it collected in its own episodes",
                    Len(Ev.scores) = n /\ \A k \in 1..n : \E p \in Of(Ev.ids[k]) : Fits(plays[p], Ev.scores[k]))
             /\ Chk("only the given policies play", \A p \in 1..Len(plays) : \E k \in 1..n : Ev.ids[k] = plays[p][1].id)
             /\ Chk("counters are the steps and episodes played",
                    /\ \E a \in Lengths(Ev.ids, Ev.scores, n) : Ev.counters[1] = played[1] + a
                    /\ Ev.counters[2] = played[2] + n * R.episodes)
          /\ played' = Ev.counters /\ plays' = <<>>
       \/ /\ Ev.op = "agree"
          /\ Chk("problems of either kind agree on a deterministic environment",
                 Len(Ev.a) = Len(Ev.b) /\ \A k \in 1..Len(Ev.a) : Ev.a[k] - Ev.b[k] \in -1..1)
          /\ UNCHANGED <<plays, played>>
       \/ /\ Ev.op = "noise"  \* n values of the noise: how many are negative, and how many are within one deviation
          /\ Chk("action noise is centered at zero", LET d == 2 * Ev.negative - Ev.n IN d * d <= 50 * Ev.n)
          /\ Chk("action noise has the given deviation", LET d == (1000 * Ev.within - 683 * Ev.n) \div 1000 IN d * d <= 12 * Ev.n)
          /\ Chk("action noise is unbounded", Ev.beyond > 0)
          /\ UNCHANGED <<plays, played>>
       \/ Ev.op = "bad" /\ Chk("what cannot be scored is refused", Ev.refused) /\ UNCHANGED <<plays, played>>
=============================================================================

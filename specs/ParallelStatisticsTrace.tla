---------------------- MODULE ParallelStatisticsTrace ----------------------
(* Recorded episodes. Cfg: W (workers), norm (whether observations are       *)
(* normalised), ends (whether the observation at the end of an episode is    *)
(* counted), low (least variance, in hundredths).                            *)
EXTENDS ParallelStatistics, TraceBase

VARIABLES unread   \* what pop has not returned yet (without workers)

TInit == StartTrace /\ PInit(IF Cfg.W = 0 THEN {0} ELSE 0..(Cfg.W - 1)) /\ unread = Nothing

\* Y: a normalised value, in thousandths; compared in units which keep the numbers small
Unit(n) == IF n <= 20 THEN 50 ELSE IF n <= 40 THEN 25 ELSE IF n <= 100 THEN 10 ELSE 5
NormalY(s, x, i, Y) ==
    LET u == Unit(s.n)
        k == Y \div (1000 \div u)
        num == 10 * u * (s.n * x[i] - s.sum[i])
        V == Spread(s, i, Cfg.low)
    IN s.n > 200 \/ (AtMost(-num, V, -(k - 1)) /\ AtMost(num, V, k + 2))
NormalYs(s, x, ys) == Len(ys) = Len(x) /\ \A i \in 1..Len(x) : IF s.n = 0 \/ ~Cfg.norm THEN ys[i] = 1000 * x[i] ELSE NormalY(s, x, i, ys[i])

Counted(s) == IF Cfg.norm THEN s ELSE Nothing
Grow(s, xs) == IF Cfg.norm THEN Joined(s, All(xs)) ELSE s

Look ==
    /\ Chk("the main statistics are those of all observations, each once", Ev.look = main')
    /\ Chk("the totals are the steps and episodes played", Ev.totals = totals')

TNext ==
    /\ More /\ Consume
    /\ \/ Ev.op = "begin" /\ Begin /\ UNCHANGED unread
       \/ /\ Ev.op = "step"   \* observations seen by policies at the same time, their effects, steps and finished episodes
          /\ busy
          /\ known' = [known EXCEPT ![Ev.w] = Grow(@, Ev.xs)]
          /\ new' = [new EXCEPT ![Ev.w] = Grow(@, Ev.xs)]
          /\ counted' = [counted EXCEPT ![Ev.w] = Add(@, Ev.played)]
          /\ Chk("policies see observations normalised by the statistics of their worker",
                 \A k \in 1..Len(Ev.ys) : NormalYs(known'[Ev.w], Ev.xs[k], Ev.ys[k]))
          /\ unread' = Grow(unread, Ev.xs)
          /\ UNCHANGED <<busy, main, totals>>
       \/ Ev.op = "end" /\ End /\ Look /\ UNCHANGED unread
          /\ Chk("the status reports the totals", Ev.status = <<>> \/ Ev.status = totals')
       \/ Ev.op = "replace" /\ Replace /\ Look /\ UNCHANGED unread
       \/ Ev.op = "copied" /\ UNCHANGED pvars /\ Look /\ UNCHANGED unread
       \/ /\ Ev.op = "put"
          /\ LET given == All(Ev.xs) IN
             /\ Put(IF Ev.how = "set" THEN given ELSE Joined(main, given))
             /\ Chk("statistics given by the caller are unchanged", Ev.given = given)
          /\ Look /\ UNCHANGED unread
       \/ /\ Ev.op = "pop"
          /\ Chk("what was collected since it was last asked for", Ev.popped = unread)
          /\ unread' = Nothing /\ UNCHANGED pvars /\ Look
       \/ /\ Ev.op = "peek"   \* an episode played without learning from it
          /\ Chk("policies see observations normalised by the statistics", \A k \in 1..Len(Ev.ys) : NormalYs(main, Ev.xs[k], Ev.ys[k]))
          /\ UNCHANGED pvars /\ Look /\ UNCHANGED unread
       \/ /\ Ev.op = "still"  \* statistics handed out earlier
          /\ Chk("statistics copied earlier are unchanged", Ev.then = Ev.now)
          /\ UNCHANGED <<pvars, unread>>
=============================================================================

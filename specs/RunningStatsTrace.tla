------------------------- MODULE RunningStatsTrace -------------------------
(* Recorded statistics. Cfg: floor (least variance, in hundredths), clip     *)
(* (limits in halves), stat (kept without limits or shapes).                 *)
EXTENDS RunningStats, TraceBase

VARIABLES stats, layers, given
Names == {"a", "b", "c"}

TInit == StartTrace /\ stats = [o \in Names |-> Nothing] /\ layers = Nothing /\ given = <<>>

Look == /\ Chk("counts, sums and sums of squares are those of what was fed",
               \A o \in Names : Ev.looks[o] = stats'[o])
        /\ Chk("what was given by the caller is unchanged", Ev.now = given')
Set(o, s) == stats' = [stats EXCEPT ![o] = s]
Rows(s, xs, ys) == Len(ys) = Len(xs) /\ \A k \in 1..Len(xs) : NormalRow(s, xs[k], Cfg.floor, Cfg.clip, ys[k])

TNext ==
    /\ More /\ Consume
    /\ \/ Ev.op = "one" /\ Set(Ev.o, Joined(stats[Ev.o], One(Ev.x))) /\ UNCHANGED layers
       \/ Ev.op = "batch" /\ Set(Ev.o, Joined(stats[Ev.o], All(Ev.xs))) /\ UNCHANGED layers
       \/ Ev.op = "masked" /\ Set(Ev.o, Joined(stats[Ev.o], All(Marked(Ev.xs, Ev.mask)))) /\ UNCHANGED layers
       \/ Ev.op = "merge" /\ Set(Ev.o, Joined(stats[Ev.o], stats[Ev.p])) /\ UNCHANGED layers
       \/ Ev.op = "copy" /\ Set(Ev.o, stats[Ev.p]) /\ UNCHANGED layers
       \/ Ev.op = "reset" /\ Set(Ev.o, Nothing) /\ UNCHANGED layers
       \/ /\ Ev.op = "normalize"
          /\ IF stats[Ev.o].n = 0
             THEN Chk("without data, nothing is normalised", Ev.refused \/ (Cfg.stat /\ Ev.ys = [k \in 1..Len(Ev.xs) |-> [i \in 1..Len(Ev.xs[k]) |-> Ev.xs[k][i] * Fine]]))
             ELSE Chk("normalised by the statistics so far", ~Ev.refused /\ Rows(stats[Ev.o], Ev.xs, Ev.ys))
          /\ UNCHANGED <<stats, layers>>
       \/ /\ Ev.op = "both"
          /\ Set(Ev.o, Joined(stats[Ev.o], All(Marked(Ev.xs, Ev.mask))))
          /\ Chk("normalised by the updated statistics", Rows(stats'[Ev.o], Ev.xs, Ev.ys))
          /\ UNCHANGED layers
       \/ Ev.op = "layer" /\ layers' = stats[Ev.o] /\ UNCHANGED stats
       \/ /\ Ev.op = "through"
          /\ Chk("a layer keeps the statistics it was made from", Rows(layers, Ev.xs, Ev.ys))
          /\ UNCHANGED <<stats, layers>>
       \/ /\ Ev.op = "report"
          /\ Chk("reported mean and deviation",
                 \A i \in 1..Len(Ev.means) : MeanOk(stats[Ev.o], i, Ev.means[i]) /\ DeviationOk(stats[Ev.o], i, Cfg.floor, Ev.devs[i]))
          /\ UNCHANGED <<stats, layers>>
       \/ /\ Ev.op = "bad"
          /\ Chk("what does not fit is refused", Ev.refused)
          /\ UNCHANGED <<stats, layers>>
    /\ given' = given \o Ev.gave
    /\ Look
=============================================================================

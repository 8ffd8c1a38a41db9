-------------------------- MODULE SupervisedTrace --------------------------
EXTENDS Supervised, TraceBase
VARIABLES nets, sums   \* networks of the present request, and the sums of their losses
tvars == <<left, nets, sums, tid, l>>
NoSum == 2000000013

TInit == StartTrace /\ left = [k \in 1..Cfg.keys |-> {}] /\ nets = <<>> /\ sums = <<>>
TNext ==
    /\ More /\ Consume
    /\ \/ /\ Ev.op = "request" /\ nets' = Ev.nets /\ sums' = [i \in 1..Len(Ev.nets) |-> NoSum] /\ UNCHANGED left
       \/ /\ Ev.op = "piece" /\ UNCHANGED nets
          /\ LET n == Len(Ev.which)
                 K == Cfg.k
             IN
             /\ Chk("each network once", Cardinality(ToSet(Ev.which)) = n /\ \A i \in 1..n : sums[Ev.which[i]] = NoSum)
             /\ Chk("number of minibatches", \A j \in 1..n : Len(Ev.seen[j]) = K)
             /\ LET draws == IF Cfg.common THEN Ev.seen[1]
                             ELSE [d \in 1..(n * K) |-> Ev.seen[1 + ((d - 1) \div K)][1 + ((d - 1) % K)]]
                IN
                /\ Chk("common minibatches", \A j \in 1..n : Ev.seen[j] = Shown(j, K, Cfg.common, draws))
                /\ Chk("the next minibatches of the pass", AllFit(Cfg.size, Cfg.m, left[Ev.key], draws))
                /\ left' = [left EXCEPT ![Ev.key] = AfterAll(Cfg.size, @, draws)]
             /\ sums' = [i \in 1..Len(nets) |-> IF i \in ToSet(Ev.which) THEN Losses(nets[i], Ev.seen[CHOOSE j \in 1..n : Ev.which[j] = i]) ELSE sums[i]]
       \/ /\ Ev.op = "losses" /\ UNCHANGED <<left, nets, sums>>
          /\ Chk("all networks judged", \A i \in 1..Len(nets) : sums[i] # NoSum)
          /\ Chk("average loss", Len(Ev.twelve) = Len(nets) /\ \A i \in 1..Len(nets) : Ev.twelve[i] = sums[i] * (12 \div Cfg.k))
       \/ /\ Ev.op = "draw" /\ UNCHANGED <<nets, sums>>
          /\ Chk("the next minibatch of the pass", Fits(Cfg.size, Cfg.m, left[Ev.key], Ev.batch))
          /\ left' = [left EXCEPT ![Ev.key] = After(Cfg.size, @, Ev.batch)]
=============================================================================

-------------------------- MODULE BagShuffleTrace ---------------------------
(* Many equal bags, emptied: every item is drawn at every time in a fair share of them. *)
EXTENDS Integers, Sequences, TraceBase

TInit == StartTrace
RECURSIVE Total(_)
Total(q) == IF q = <<>> THEN 0 ELSE Head(q) + Total(Tail(q))
TNext ==
  /\ More /\ Consume /\ Ev.op = "drawn"
  /\ Chk("every bag gives one of its items", Len(Ev.counts) = Cfg.k /\ Total(Ev.counts) = Cfg.lanes)
  /\ Chk("every item comes at every time in a fair share of the bags", \A i \in 1..Cfg.k : 3 * Cfg.k * Ev.counts[i] >= Cfg.lanes)
=============================================================================

---------------------------- MODULE BatchingTrace ----------------------------
EXTENDS Batching, TraceBase
TInit == StartTrace
TNext ==
  /\ More /\ Consume
  /\ \/ Ev.op = "call" /\
          LET ok == Ev.fits /\ Callable(Ev.args, Ev.small) IN
          /\ Chk("exactly the calls which make no sense are refused", Ev.refused = (~ok))
          /\ Ev.refused \/ (/\ Chk("item by item", CallOk(Ev.args, Ev.table, Ev.out))
                            /\ Chk("types of the arguments", ScalarDtypes(Ev.args, Ev.seen))
                            /\ Chk("arguments are not modified", Ev.intact))
     \/ Ev.op = "random" /\ Chk("randomness as requested", RandomOk(Ev.mode, Ev.batched, Ev.refused, Ev.rows))
     \/ Ev.op = "evaluate" /\
          /\ Chk("each solution has the result of its own decision values", Ev.evals = Ev.rows)
          /\ Chk("the function sees what it is declared for", \A k \in 1..Len(Ev.ndims) : Ev.ndims[k] = Ev.declared)
=============================================================================

--------------------------- MODULE StructuresTrace ---------------------------
EXTENDS Structures, TraceBase

TInit == StartTrace /\ cfg = Cfg /\ s = [i \in 1..Cfg.n |-> InitElem(Cfg)] /\ phase = FALSE

TUpdate == /\ Ev.op \in Updates
           /\ LET o == [name |-> Ev.op] @@ Ev IN
              /\ Chk("update reported as invalid iff a key is invalid", Ev.exc = UpdOutcome(cfg, s, phase, o).exc)
              /\ Update(o)
TPush == /\ Ev.op \in {"append", "push", "appendleft"}
         /\ LET o == [name |-> Ev.op] @@ Ev IN
            /\ Chk("adding reported as invalid iff it cannot be done", Ev.exc = PushOutcome(cfg, s, phase, o).exc)
            /\ Push(o)
TPop == /\ Ev.op \in {"pop", "popleft"}
        /\ LET o == [name |-> Ev.op] @@ Ev IN
           /\ Chk("popping reported as invalid iff something is empty", Ev.exc = PopFails(cfg, s, o))
           /\ Chk("popped values", Ev.exc \/ PopResultOk(cfg, s, o, Ev.res))
           /\ Pop(o, Ev.res)
TClear == Ev.op = "clear" /\ Chk("clearing succeeds", ~Ev.exc) /\ Clear(Ev)
TGet == /\ Ev.op = "get"
        /\ Chk("reading reported as invalid iff a key is invalid", Ev.exc = GetFails(cfg, s, Ev))
        /\ Chk("values read", Ev.exc \/ GetOk(cfg, s, Ev, Ev.res))
        /\ Read
TContains == /\ Ev.op = "contains"
             /\ Chk("contains reported as invalid iff a key is invalid", Ev.exc = GetFails(cfg, s, [hasdef |-> FALSE] @@ Ev))
             /\ Chk("contains", Ev.exc \/ ContainsOk(cfg, s, Ev, Ev.res))
             /\ Read
\* shape queries
TInfo == /\ Ev.op = "info"
         /\ Chk("is_batched", Ev.batched = cfg.batched)
         /\ Chk("batch shape", Ev.bshape = cfg.bshape)
         /\ Chk("value shape", Ev.vshape = cfg.vshape)
         /\ Read

TNext == More /\ Consume
         /\ (TUpdate \/ TPush \/ TPop \/ TClear \/ TGet \/ TContains \/ TInfo)
         /\ Chk("contents after the call", ObsOk(cfg, s', Ev.obs))
=============================================================================

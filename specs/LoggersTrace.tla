---------------------------- MODULE LoggersTrace ----------------------------
EXTENDS Loggers, TraceBase
TInit == StartTrace /\ Start
SetOf(q) == {q[i] : i \in 1..Len(q)}

\* what logger k shows after the event: Ev.obs[k] = [rec, files, last, saves, steps]
Shown(k) ==
  LET lg == loggers'[k]  o == Ev.obs[k] IN
  /\ Chk("recorded generations", lg.kind = "plain" => [i \in 1..Len(o.rec) |-> o.rec[i].g] = lg.rec)
  /\ Chk("recorded values", \A i \in 1..Len(o.rec) : SetOf(o.rec[i].v) = {p \in SetOf(items'[o.rec[i].g]) : p[1] \in lg.keys})
  /\ Chk("recorded step numbers", Len(o.steps) \in {0, Len(lg.rec)} /\ \A i \in 1..Len(o.steps) : o.steps[i] = lg.rec[i] - lg.start)
  /\ Chk("files on disk", {<<o.files[i].name, o.files[i].g>> : i \in 1..Len(o.files)} = lg.files)
  /\ Chk("contents of the files", \A i \in 1..Len(o.files) : o.files[i].g > 0 =>
           SetOf(o.files[i].v) = {p \in SetOf(items'[o.files[i].g]) : p[1] \in lg.keys})
  /\ Chk("reported last file", (IF lg.last = <<>> THEN <<>> ELSE <<lg.last>>) = o.last)
  /\ Chk("number of saves", o.saves = lg.saves)

TNext ==
  /\ More /\ Consume
  /\ \/ Ev.op = "attach" /\ Attach(Ev.interval, Ev.first, Ev.kind, SetOf(Ev.keys))
     \/ Ev.op = "step" /\ Step(Ev.v)
     \/ Ev.op = "run_end" /\ RunEnd
     \/ Ev.op = "save" /\ ManualSave(Ev.k, Ev.name)
     \/ Ev.op = "run_step" /\ Step(Ev.v)
  /\ Chk("observed loggers", Ev.op = "run_step" \/ Len(Ev.obs) = Len(loggers'))
  /\ (Ev.op # "run_step" => \A k \in 1..Len(loggers') : Shown(k))
=============================================================================

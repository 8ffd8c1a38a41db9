----------------------------- MODULE TraceBase -----------------------------
(* Common part of all trace modules: the recorded executions, the position in *)
(* the execution being explained, and the reporting of verdicts.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Traces == JsonDeserialize("traces.json")

VARIABLES tid, l

Ev == Traces[tid].ev[l]
Cfg == Traces[tid].cfg
More == l <= Len(Traces[tid].ev)

\* a named clause; a clause which does not hold is reported by its name
Chk(name, c) == IF c THEN TRUE ELSE PrintT(<<"FAIL", tid, l, name>>) /\ FALSE

StartTrace == tid \in 1..Len(Traces) /\ l = 1
Consume == l' = l + 1 /\ tid' = tid

Accepted == (l = Len(Traces[tid].ev) + 1) => PrintT(<<"ACC", tid>>)
Progress == PrintT(<<"AT", tid, l>>)
=============================================================================

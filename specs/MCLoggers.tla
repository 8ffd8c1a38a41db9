------------------------------ MODULE MCLoggers ------------------------------
EXTENDS Loggers
CONSTANTS MaxGen, MaxLoggers
VARIABLE ended, manual      \* whether a run has just ended; manual saves made
Init == Start /\ ended = FALSE /\ manual = 0
Next == \/ /\ Len(loggers) < MaxLoggers /\ ended' = FALSE /\ manual' = manual
           /\ \E n \in 1..3, f \in BOOLEAN, k \in {"plain", "pickle"} : Attach(n, f, k, {"a"})
        \/ gen < MaxGen /\ Step(<<<<"a", gen>>>>) /\ ended' = FALSE /\ manual' = manual
        \/ RunEnd /\ ended' = TRUE /\ manual' = manual
        \/ manual < 1 /\ manual' = manual + 1 /\ ended' = ended /\ \E i \in 1..Len(loggers) : ManualSave(i, <<"x", 0>>)
Spec == Init /\ [][Next]_<<lvars, ended, manual>>
\* after a finished run the last generation is on file, and no generation was saved twice automatically
LastOnFile == ended => \A k \in 1..Len(loggers) : loggers[k].kind = "pickle" => \E f \in loggers[k].files : f[2] = gen
NoDoubles == \A k \in 1..Len(loggers) : loggers[k].saves <= Cardinality(loggers[k].files) + (IF manual > 1 THEN manual ELSE 0)
=============================================================================

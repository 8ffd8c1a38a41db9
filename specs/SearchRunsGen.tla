--------------------------- MODULE SearchRunsGen ---------------------------
(* Random schedules of runs which are built, copied and continued, printed as *)
(* operation sequences. The runs 1 and 2 have one origin; all others are      *)
(* copies. Work and Ways are what can be done and the ways of copying.        *)
EXTENDS SearchRuns, TLC, Json
CONSTANTS Depth, Work, Ways
VARIABLE done
Names == DOMAIN runs

Init == Start /\ done = <<>>
Log(e) == done' = Append(done, e) /\ UNCHANGED looks
Build == /\ Names \cap {1, 2} # {1, 2}
         /\ LET r == IF 1 \in Names THEN 2 ELSE 1 IN Made(r, 1, <<1>>) /\ Log([op |-> "make", run |-> r])
Work1 == \E r \in Names, w \in Work : Done(r, w) /\ Log([op |-> "do", run |-> r, what |-> w])
Copy1 == Names # {} /\ Cardinality(Names) < 5
         /\ LET c == 3 + Cardinality(Names) IN \E r \in Names, h \in Ways : Copied(r, c) /\ Log([op |-> "copy", run |-> r, copy |-> c, how |-> h])
Noise == Names # {} /\ UNCHANGED runs /\ \E n \in {"torch", "numpy", "python"} : Log([op |-> "noise", what |-> n])
Next == Build \/ Work1 \/ Copy1 \/ Noise
Emit == (Len(done) = Depth) => PrintT("@@GEN " \o ToJson(done))
=============================================================================

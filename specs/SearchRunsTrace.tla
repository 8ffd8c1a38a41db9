-------------------------- MODULE SearchRunsTrace --------------------------
EXTENDS SearchRuns, TraceBase

TInit == StartTrace /\ Start
Quiet == UNCHANGED <<runs, looks>>
See == [vals |-> Ev.vals, evs |-> Ev.evs, marks |-> Ev.marks, means |-> Ev.means]

\* a look at a run
SeeOk ==
  LET new == Look(runs[Ev.run].mirror, Cfg.ordinal, See) IN
  /\ Chk("as many solutions and reports", \A e \in Known(Ev.run) : Len(e[3].vals) = Len(new.vals) /\ Len(e[3].evs) = Len(new.evs))
  /\ Chk("same decision values, centre and deviations", \A e \in Known(Ev.run) : e[3].vals = new.vals)
  /\ Chk("same fitnesses", \A e \in Known(Ev.run) : e[3].evs = new.evs)
  /\ Chk("same reported solutions' fitnesses", \A e \in Known(Ev.run) : e[3].marks = new.marks)
  /\ Chk("same reported averages", \A e \in Known(Ev.run) : e[3].means = new.means)
  /\ Chk("same look", LooksRight(Ev.run, new))
  /\ Seen(Ev.run, new) /\ UNCHANGED runs

\* freshly generated solutions: length, type, bounds
FreshOk ==
  /\ Chk("as many solutions as asked", Len(Ev.rows) = Ev.n)
  /\ Chk("declared length", \A i \in 1..Len(Ev.rows) : Len(Ev.rows[i]) = Len(Ev.lo))
  /\ Chk("declared type", Ev.dtype = Ev.declared)
  /\ Chk("not below the lower bounds", \A i \in 1..Len(Ev.rows) : \A j \in 1..Len(Ev.lo) : Ev.lo[j] <= Ev.rows[i][j])
  /\ Chk("not above the upper bounds", \A i \in 1..Len(Ev.rows) : \A j \in 1..Len(Ev.hi) : Ev.rows[i][j] <= Ev.hi[j])
  /\ Chk("every value within the bounds can occur", Ev.full => \A j \in 1..Len(Ev.lo) : \A v \in Ev.lo[j]..Ev.hi[j] : \E i \in 1..Len(Ev.rows) : Ev.rows[i][j] = v)
  /\ Chk("values vary where the bounds leave room", (Ev.floating /\ Ev.n >= 7) => \A j \in 1..Len(Ev.lo) : Ev.hi[j] # Ev.lo[j] => \E i \in 1..Len(Ev.rows) : Ev.rows[i][j] # Ev.rows[1][j])
  /\ Quiet

TNext ==
  /\ More /\ Consume
  /\ \/ Ev.op = "make" /\ Made(Ev.run, Ev.origin, Ev.mirror) /\ UNCHANGED looks
     \/ Ev.op = "copy" /\ Copied(Ev.run, Ev.copy) /\ UNCHANGED looks
     \/ Ev.op = "do" /\ Done(Ev.run, Ev.what) /\ UNCHANGED looks
     \/ Ev.op = "see" /\ SeeOk
     \/ Ev.op = "parts" /\ Chk("shared parts stay shared", SameSharing(Ev.roles, Ev.copied_roles)) /\ Chk("nothing shared with the original", Separate(Ev.here, Ev.there)) /\ Quiet
     \/ Ev.op = "kept" /\ Chk("counters survive", Ev.before = Ev.after) /\ Quiet
     \/ Ev.op = "noise" /\ Quiet
     \/ Ev.op = "global" /\ Chk("the global generators are left alone", Ev.before = Ev.after) /\ Quiet
     \/ Ev.op = "fresh" /\ FreshOk
=============================================================================

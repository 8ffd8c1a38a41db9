------------------------------ MODULE Loggers ------------------------------
(* Loggers attached to a search: which generations each of them records.     *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES gen,       \* generation counter
          items,     \* status items of every generation so far: sequence of sequences of <<key, value>>
          loggers    \* sequence of [interval, first, kind, keys, start, calls, rec, files, last]
lvars == <<gen, items, loggers>>

\* rec: recorded generations in order; files: set of <<name, generation>>; last: <<name, generation>> of the last save
NewLogger(interval, first, kind, keys) ==
  [interval |-> interval, first |-> first, kind |-> kind, keys |-> keys, start |-> gen, calls |-> 0, rec |-> <<>>,
   files |-> {}, last |-> <<>>, saves |-> 0]
Start == gen = 0 /\ items = <<>> /\ loggers = <<>>

\* the interval rule, on the number of generations seen so far including this one
Selected(lg, n) == IF lg.first THEN (n - 1) % lg.interval = 0 ELSE n % lg.interval = 0

AutoName(g) == <<"gen", g>>
Save(lg, name, g) == [lg EXCEPT !.files = {f \in @ : f[1] # name} \cup {<<name, g>>}, !.last = <<name, g>>, !.saves = @ + 1]

See(lg, g) ==
  LET n == lg.calls + 1
      a == [lg EXCEPT !.calls = n, !.rec = IF Selected(lg, n) THEN Append(@, g) ELSE @]
  IN IF Selected(lg, n) /\ lg.kind = "pickle" THEN Save(a, AutoName(g), g) ELSE a

Attach(interval, first, kind, keys) ==
  loggers' = Append(loggers, NewLogger(interval, first, kind, keys)) /\ UNCHANGED <<gen, items>>
Step(v) == /\ gen' = gen + 1 /\ items' = Append(items, v)
           /\ loggers' = [i \in 1..Len(loggers) |-> See(loggers[i], gen + 1)]
Final(lg) == IF lg.kind = "pickle" /\ (lg.last = <<>> \/ lg.last[2] < gen) THEN Save(lg, AutoName(gen), gen) ELSE lg
RunEnd == loggers' = [i \in 1..Len(loggers) |-> Final(loggers[i])] /\ UNCHANGED <<gen, items>>
ManualSave(i, name) == /\ loggers[i].kind = "pickle"
                       /\ loggers' = [loggers EXCEPT ![i] = Save(@, name, gen)] /\ UNCHANGED <<gen, items>>

\* the items of generation g that the logger keeps
Kept(lg, g) == {p \in {items[g][j] : j \in 1..Len(items[g])} : p[1] \in lg.keys}

(* ---- properties ---- *)
Increasing(q) == \A i, j \in 1..Len(q) : i < j => q[i] < q[j]
ExactlyTheRule ==
  \A k \in 1..Len(loggers) : LET lg == loggers[k] IN
    /\ lg.calls = gen - lg.start
    /\ Increasing(lg.rec)
    /\ {lg.rec[i] : i \in 1..Len(lg.rec)} =
         {g \in (lg.start + 1)..gen : IF lg.first THEN (g - lg.start) % lg.interval = 1 % lg.interval ELSE (g - lg.start) % lg.interval = 0}
\* one automatic file per generation, and the reported last one exists
FilesOk == \A k \in 1..Len(loggers) : LET lg == loggers[k] IN
    /\ \A f1, f2 \in lg.files : f1[1] = f2[1] => f1 = f2
    /\ lg.last # <<>> => lg.last \in lg.files
    /\ \A f \in lg.files : f[1][1] = "gen" => f[1][2] = f[2]
    /\ lg.kind = "pickle" => \A i \in 1..Len(lg.rec) : <<AutoName(lg.rec[i]), lg.rec[i]>> \in lg.files
=============================================================================

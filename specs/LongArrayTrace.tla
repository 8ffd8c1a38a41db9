--------------------------- MODULE LongArrayTrace ---------------------------
(* Longer object arrays and what is taken from them. A handle is a sequence  *)
(* of cells: a slice has the cells of its source, everything else new ones.  *)
EXTENDS Integers, Sequences, TraceBase
VARIABLES cell, val      \* the cells of every handle; the value in every cell

TInit == StartTrace /\ cell = << [i \in 1..Len(Cfg.start) |-> i] >> /\ val = Cfg.start
Shown(c, v) == [h \in 1..Len(c) |-> [i \in 1..Len(c[h]) |-> v[c[h][i]]]]
New(contents) ==
  /\ cell' = Append(cell, [i \in 1..Len(contents) |-> Len(val) + i])
  /\ val' = val \o contents
Of(h) == [i \in 1..Len(cell[h]) |-> val[cell[h][i]]]
Times(q, n) == [i \in 1..(n * Len(q)) |-> q[1 + ((i - 1) % Len(q))]]
TNext ==
  /\ More /\ Consume
  /\ \/ Ev.op = "slice" /\ cell' = Append(cell, [i \in 1..Len(Ev.idx) |-> cell[Ev.h][Ev.idx[i]]]) /\ UNCHANGED val
     \/ Ev.op = "index" /\ New([i \in 1..Len(Ev.idx) |-> Of(Ev.h)[Ev.idx[i]]])
     \/ Ev.op = "repeat" /\ New(Times(Of(Ev.h), Ev.n))
     \/ Ev.op = "copy" /\ New(Of(Ev.h))
     \/ Ev.op = "write" /\ val' = [val EXCEPT ![cell[Ev.h][Ev.i]] = Ev.v] /\ UNCHANGED cell
     \/ Ev.op = "fill" /\ UNCHANGED cell
          /\ val' = [c \in 1..Len(val) |-> IF \E i \in 1..Len(Ev.vs) : cell[Ev.h][i] = c
                                           THEN Ev.vs[CHOOSE i \in 1..Len(Ev.vs) : cell[Ev.h][i] = c] ELSE val[c]]
  /\ Chk("what every array shows", Ev.show = Shown(cell', val'))
  /\ Chk("stored arrays of numbers cannot be changed", Ev.fixed)
=============================================================================

----------------------------- MODULE ObjectStore -----------------------------
(* Object arrays. The user holds mutable objects, a graph with identities. An   *)
(* object array is a window (positions) on a storage of cells; a cell holds a   *)
(* frozen graph. Tensors are windows on buffers of numbers, possibly read-only. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES heap,    \* id -> [k: kind, c: children]; a child is [t: "a", v: text] or [t: "r", v: id]
          stores,  \* sequence of storages: sequences of cells [root: child, g: id -> node]
          arrs,    \* sequence of object arrays: [s: storage, pos: positions, ro: read-only]
          bufs,    \* sequence of buffers: sequences of numbers
          tens     \* sequence of tensors: [b: buffer, pos: positions, ro: read-only]
ovars == <<heap, stores, arrs>>
tvars == <<bufs, tens>>

Atom(x) == [t |-> "a", v |-> x]
NoneCell == [root |-> Atom("None"), g |-> <<>>]

\* ---- graphs ------------------------------------------------------------------
\* Arrays of objects own their elements: sharing is followed inside each element only.
Kids(n) == IF n.k = "objects" THEN {} ELSE {n.c[j].v : j \in {j \in 1..Len(n.c) : n.c[j].t = "r"}}
RECURSIVE Reach(_, _, _)
Reach(g, todo, seen) ==
  IF todo = {} THEN seen
  ELSE LET new == (UNION {Kids(g[i]) : i \in todo}) \ seen IN Reach(g, new, seen \cup new)
ReachOf(g, v) == IF v.t = "a" THEN {} ELSE Reach(g, {v.v}, {v.v})

\* tuples and lists become immutable lists, arrays of objects become object arrays
RECURSIVE Freeze(_, _)
Freeze(g, v) ==
  [root |-> v,
   g |-> [i \in ReachOf(g, v) |->
            IF g[i].k = "objects" THEN [k |-> "array", c |-> <<>>, cells |-> [j \in 1..Len(g[i].c) |-> Freeze(g, g[i].c[j])]]
            ELSE [k |-> IF g[i].k = "tuple" THEN "list" ELSE g[i].k, c |-> g[i].c, cells |-> <<>>]]]

\* the text of a value: a walk in which containers are numbered by their first visit
RECURSIVE Walk(_, _, _, _), Flat(_, _)
Walk(g, stack, seen, out) ==
  IF stack = <<>> THEN [out |-> out, seen |-> seen]
  ELSE LET v == Head(stack)  rest == Tail(stack) IN
       IF v.t = "a" THEN Walk(g, rest, seen, Append(out, v.v))
       ELSE IF \E k \in 1..Len(seen) : seen[k] = v.v
            THEN Walk(g, rest, seen, Append(out, "#" \o ToString(CHOOSE k \in 1..Len(seen) : seen[k] = v.v)))
            ELSE LET n == g[v.v] IN
                 CASE n.k = "array" -> Walk(g, rest, Append(seen, v.v), Append(out, "array:" \o ToString(Len(n.cells))) \o Flat(n.cells, 1))
                   [] n.k = "objects" -> Walk(g, rest, Append(seen, v.v), Append(out, "objects:" \o ToString(Len(n.c)))
                                                \o Flat([j \in 1..Len(n.c) |-> [root |-> n.c[j], g |-> g]], 1))
                   [] OTHER -> Walk(g, n.c \o rest, Append(seen, v.v), Append(out, n.k \o ":" \o ToString(Len(n.c))))
Flat(cells, k) == IF k > Len(cells) THEN <<>> ELSE Walk(cells[k].g, <<cells[k].root>>, <<>>, <<>>).out \o Flat(cells, k + 1)
Text(g, v) == Walk(g, <<v>>, <<>>, <<>>).out
Order(g, v) == Walk(g, <<v>>, <<>>, <<>>).seen

CellText(c) == Text(c.g, c.root)
ArrText(a) == [p \in 1..Len(a.pos) |-> CellText(stores[a.s][a.pos[p]])]
UserText(v) == Text(heap, v)

\* a mutable copy of a frozen value: its objects get the ids base+1, base+2, ... in walking order
Renamed(seen, base, v) == IF v.t = "a" THEN v ELSE [v EXCEPT !.v = base + CHOOSE k \in 1..Len(seen) : seen[k] = v.v]
ThawNodes(c, base) ==
  LET seen == Order(c.g, c.root) IN
  [i \in (base + 1)..(base + Len(seen)) |->
     LET n == c.g[seen[i - base]] IN [k |-> n.k, c |-> [j \in 1..Len(n.c) |-> Renamed(seen, base, n.c[j])]]]
ThawRoot(c, base) == Renamed(Order(c.g, c.root), base, c.root)

\* ---- the user's own objects -----------------------------------------------------
NewObject(i, k, c) == i \notin DOMAIN heap /\ heap' = heap @@ (i :> [k |-> k, c |-> c]) /\ UNCHANGED <<stores, arrs>>
Mutate(i, c) == i \in DOMAIN heap /\ heap' = [heap EXCEPT ![i].c = c] /\ UNCHANGED <<stores, arrs>>

\* ---- object arrays -----------------------------------------------------------------
NewArray(n) ==
  /\ stores' = Append(stores, [i \in 1..n |-> NoneCell])
  /\ arrs' = Append(arrs, [s |-> Len(stores) + 1, pos |-> [i \in 1..n |-> i], ro |-> FALSE])
  /\ UNCHANGED heap
RECURSIVE PutAll(_, _, _, _)
PutAll(st, pos, cells, k) == IF k > Len(pos) THEN st ELSE PutAll([st EXCEPT ![pos[k]] = cells[k]], pos, cells, k + 1)
\* put cells into the window positions ps of array a
PutCells(a, ps, cells) ==
  /\ ~arrs[a].ro
  /\ stores' = [stores EXCEPT ![arrs[a].s] = PutAll(@, [k \in 1..Len(ps) |-> arrs[a].pos[ps[k]]], cells, 1)]
  /\ UNCHANGED <<heap, arrs>>
Put(a, ps, vs) == PutCells(a, ps, [k \in 1..Len(vs) |-> Freeze(heap, vs[k])])
PutFrom(a, ps, b, qs) == PutCells(a, ps, [k \in 1..Len(qs) |-> stores[arrs[b].s][arrs[b].pos[qs[k]]]])
Refused(a) == arrs[a].ro /\ UNCHANGED ovars
\* a window on the same storage
View(a, ps, ro) ==
  /\ arrs' = Append(arrs, [s |-> arrs[a].s, pos |-> [k \in 1..Len(ps) |-> arrs[a].pos[ps[k]]], ro |-> arrs[a].ro \/ ro])
  /\ UNCHANGED <<heap, stores>>
\* independent contents
CopyArr(a, ps, ro) ==
  /\ stores' = Append(stores, [k \in 1..Len(ps) |-> stores[arrs[a].s][arrs[a].pos[ps[k]]]])
  /\ arrs' = Append(arrs, [s |-> Len(stores) + 1, pos |-> [k \in 1..Len(ps) |-> k], ro |-> ro])
  /\ UNCHANGED heap
\* obtain a mutable copy of a cell (in which no array is nested)
Thaw(a, p, base) ==
  LET c == stores[arrs[a].s][arrs[a].pos[p]] IN
  /\ heap' = heap @@ ThawNodes(c, base)
  /\ UNCHANGED <<stores, arrs>>
ThawRootOf(a, p, base) == ThawRoot(stores[arrs[a].s][arrs[a].pos[p]], base)
\* a whole object array may also be stored as a value: it is frozen into a node of kind "array"
StoreArray(a, p, b) ==
  /\ ~arrs[a].ro
  /\ LET node == [k |-> "array", c |-> <<>>, cells |-> [k \in 1..Len(arrs[b].pos) |-> stores[arrs[b].s][arrs[b].pos[k]]]]
     IN stores' = [stores EXCEPT ![arrs[a].s][arrs[a].pos[p]] = [root |-> [t |-> "r", v |-> 0], g |-> (0 :> node)]]
  /\ UNCHANGED <<heap, arrs>>

\* ---- tensors -------------------------------------------------------------------------
TText(t) == [k \in 1..Len(t.pos) |-> bufs[t.b][t.pos[k]]]
TNew(vals) ==
  /\ bufs' = Append(bufs, vals)
  /\ tens' = Append(tens, [b |-> Len(bufs) + 1, pos |-> [k \in 1..Len(vals) |-> k], ro |-> FALSE])
TWrite(t, ps, vals) ==
  /\ ~tens[t].ro
  /\ bufs' = [bufs EXCEPT ![tens[t].b] = PutAll(@, [k \in 1..Len(ps) |-> tens[t].pos[ps[k]]], vals, 1)]
  /\ UNCHANGED tens
TView(t, ps, ro) ==
  /\ tens' = Append(tens, [b |-> tens[t].b, pos |-> [k \in 1..Len(ps) |-> tens[t].pos[ps[k]]], ro |-> tens[t].ro \/ ro])
  /\ UNCHANGED bufs
TCopy(t, ps, ro) ==
  /\ bufs' = Append(bufs, [k \in 1..Len(ps) |-> bufs[tens[t].b][tens[t].pos[ps[k]]]])
  /\ tens' = Append(tens, [b |-> Len(bufs) + 1, pos |-> [k \in 1..Len(ps) |-> k], ro |-> ro])
TRefused(t) == tens[t].ro /\ UNCHANGED tvars
=============================================================================

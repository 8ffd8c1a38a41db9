---------------------------- MODULE MCObjectStore ----------------------------
(* Bounded model: two user objects (the second may hold the first, twice), one  *)
(* array of two cells, its views and copies, one tensor and its views.          *)
EXTENDS ObjectStore
CONSTANTS MaxArrs, MaxTens, MaxDepth
VARIABLES last
R(i) == [t |-> "r", v |-> i]
Kids1 == {<<>>, <<Atom("x")>>, <<Atom("y")>>}
Kids2 == {<<Atom("x")>>, <<R(1)>>, <<R(1), R(1)>>}
Init == /\ heap = (1 :> [k |-> "list", c |-> <<Atom("x")>>]) @@ (2 :> [k |-> "tuple", c |-> <<R(1), R(1)>>])
        /\ stores = <<<<NoneCell, NoneCell>>>> /\ arrs = <<[s |-> 1, pos |-> <<1, 2>>, ro |-> FALSE]>>
        /\ bufs = <<<<0, 0>>>> /\ tens = <<[b |-> 1, pos |-> <<1, 2>>, ro |-> FALSE]>> /\ last = <<"init", 0>>
Wins(n) == {<<1>>, <<n>>, [k \in 1..n |-> k], [k \in 1..n |-> n + 1 - k]}
NextO ==
  \/ \E c \in Kids1 : Mutate(1, c) /\ last' = <<"mutate", 0>>
  \/ \E c \in Kids2 : Mutate(2, c) /\ last' = <<"mutate", 0>>
  \/ \E a \in 1..Len(arrs) : \/ \E p \in 1..Len(arrs[a].pos), i \in {1, 2} : Put(a, <<p>>, <<R(i)>>) /\ last' = <<"put", arrs[a].s>>
                             \/ \E b \in 1..Len(arrs) : Len(arrs[a].pos) = Len(arrs[b].pos) /\
                                  PutFrom(a, [k \in 1..Len(arrs[a].pos) |-> k], b, [k \in 1..Len(arrs[a].pos) |-> k]) /\ last' = <<"put", arrs[a].s>>
                             \/ Refused(a) /\ last' = <<"refused", 0>>
                             \/ /\ Len(arrs) < MaxArrs
                                /\ \E ps \in Wins(Len(arrs[a].pos)), ro \in BOOLEAN : (View(a, ps, ro) /\ last' = <<"view", 0>>) \/ (CopyArr(a, ps, ro) /\ last' = <<"copy", 0>>)
                             \/ /\ DOMAIN heap = {1, 2} /\ \E p \in 1..Len(arrs[a].pos) : Thaw(a, p, 2) /\ last' = <<"thaw", 0>>
  \/ \E i \in DOMAIN heap \ {1, 2} : Mutate(i, <<Atom("z")>>) /\ last' = <<"mutate", 0>>
NextT ==
  \/ \E t \in 1..Len(tens) :
       \/ \E p \in 1..Len(tens[t].pos), v \in {1, 2} : TWrite(t, <<p>>, <<v>>) /\ last' = <<"twrite", tens[t].b>>
       \/ TRefused(t) /\ last' = <<"refused", 0>>
       \/ Len(tens) < MaxTens /\ \E ps \in Wins(Len(tens[t].pos)), ro \in BOOLEAN :
             \/ TView(t, ps, ro) /\ last' = <<"tview", 0>>
             \/ TCopy(t, ps, ro) /\ last' = <<"tcopy", 0>>
Next == (NextO /\ UNCHANGED tvars) \/ (NextT /\ UNCHANGED ovars)
Spec == Init /\ [][Next]_<<ovars, tvars, last>>
NextOnlyO == NextO /\ UNCHANGED tvars
Short == TLCGet("level") < MaxDepth
NextOnlyT == NextT /\ UNCHANGED ovars
\* contents change only through a write into the storage shown
Insulated == [][\A a \in 1..Len(arrs) : (ArrText(arrs[a])' # ArrText(arrs[a])) => last' = <<"put", arrs[a].s>>]_<<ovars, tvars, last>>
UserOwned == [][\A i \in {1, 2} : (Text(heap', R(i)) # Text(heap, R(i))) => last'[1] = "mutate"]_<<ovars, tvars, last>>
TInsulated == [][\A t \in 1..Len(tens) : (TText(tens[t])' # TText(tens[t])) => last' = <<"twrite", tens[t].b>>]_<<ovars, tvars, last>>
\* views show the same cells as their source, in both directions
Follow == \A a, b \in 1..Len(arrs) : arrs[a].s = arrs[b].s =>
            \A p \in 1..Len(arrs[a].pos), q \in 1..Len(arrs[b].pos) : arrs[a].pos[p] = arrs[b].pos[q] => ArrText(arrs[a])[p] = ArrText(arrs[b])[q]
\* what a frozen pair of the same list shows is a shared list
Sharing == \A s \in 1..Len(stores), i \in 1..2 : (i <= Len(stores[s]) /\ DOMAIN stores[s][i].g = {1, 2} /\ Len(stores[s][i].g[2].c) = 2)
              => CellText(stores[s][i])[Len(CellText(stores[s][i]))] = "#2"
=============================================================================

-------------------------- MODULE ObjectStoreTrace --------------------------
EXTENDS ObjectStore, TraceBase
VARIABLE roots    \* the values the user holds
TInit == StartTrace /\ heap = <<>> /\ stores = <<>> /\ arrs = <<>> /\ bufs = <<>> /\ tens = <<>> /\ roots = <<>>
OSame == UNCHANGED <<tvars, roots>>
TSame == UNCHANGED <<ovars, roots>>
Do ==
  \/ Ev.op = "object" /\ NewObject(Ev.id, Ev.k, Ev.c) /\ UNCHANGED tvars
       /\ roots' = Append(roots, [t |-> "r", v |-> Ev.id])
  \/ Ev.op = "mutate" /\ Mutate(Ev.id, Ev.c) /\ OSame
  \/ Ev.op = "array" /\ NewArray(Ev.n) /\ OSame
  \/ Ev.op = "put" /\ Chk("writing is refused exactly for read-only arrays", Ev.refused = arrs[Ev.a].ro)
       /\ (IF Ev.refused THEN Refused(Ev.a) ELSE Put(Ev.a, Ev.ps, Ev.vs)) /\ OSame
  \/ Ev.op = "putfrom" /\ Chk("writing is refused exactly for read-only arrays", Ev.refused = arrs[Ev.a].ro)
       /\ (IF Ev.refused THEN Refused(Ev.a) ELSE PutFrom(Ev.a, Ev.ps, Ev.b, Ev.qs)) /\ OSame
  \/ Ev.op = "putarray" /\ Chk("writing is refused exactly for read-only arrays", Ev.refused = arrs[Ev.a].ro)
       /\ (IF Ev.refused THEN Refused(Ev.a) ELSE StoreArray(Ev.a, Ev.p, Ev.b)) /\ OSame
  \/ Ev.op = "view" /\ View(Ev.a, Ev.ps, Ev.ro) /\ OSame
  \/ Ev.op = "copy" /\ Chk("a copy keeps the read-only attribute when it is to be kept", Ev.keep => Ev.ro = arrs[Ev.a].ro)
       /\ CopyArr(Ev.a, Ev.ps, Ev.ro) /\ OSame
  \/ Ev.op = "thaw" /\ Thaw(Ev.a, Ev.p, Ev.base) /\ roots' = Append(roots, ThawRootOf(Ev.a, Ev.p, Ev.base)) /\ UNCHANGED tvars
  \/ Ev.op = "thawtext" /\ Chk("a mutable copy shows the same", Ev.text = CellText(stores[arrs[Ev.a].s][arrs[Ev.a].pos[Ev.p]]))
       /\ UNCHANGED <<ovars, tvars, roots>>
  \/ Ev.op = "attack" /\ Chk("stored objects refuse modification", Ev.refused) /\ UNCHANGED <<ovars, tvars, roots>>
  \/ Ev.op = "tnew" /\ TNew(Ev.vals) /\ TSame
  \/ Ev.op = "twrite" /\ Chk("a read-only tensor refuses modification", Ev.refused = tens[Ev.t].ro)
       /\ (IF Ev.refused THEN TRefused(Ev.t) ELSE TWrite(Ev.t, Ev.ps, Ev.vals)) /\ TSame
  \/ Ev.op = "tview" /\ Chk("a view of a read-only tensor is read-only", (tens[Ev.t].ro \/ Ev.wantro) = Ev.ro)
       /\ TView(Ev.t, Ev.ps, Ev.ro) /\ TSame
  \/ Ev.op = "tcopy" /\ Chk("a copy is read-only when it is to be", Ev.must => Ev.ro = Ev.wantro)
       /\ TCopy(Ev.t, Ev.ps, Ev.ro) /\ TSame
Seen == /\ Chk("contents of the object arrays", Ev.arrs = [a \in 1..Len(arrs') |-> ArrText(arrs[a])'])
        /\ Chk("read-only attributes", Ev.ros = [a \in 1..Len(arrs') |-> arrs'[a].ro])
        /\ Chk("objects held by the user", Ev.roots = [r \in 1..Len(roots') |-> Text(heap', roots'[r])])
        /\ Chk("contents of the tensors", Ev.tens = [t \in 1..Len(tens') |-> TText(tens[t])'])
TNext == More /\ Consume /\ Do /\ (Ev.op # "object" => Seen)
=============================================================================

---------------------------- MODULE MCStructures ----------------------------
(* Bounded exploration: the abstract containers together with the concrete   *)
(* ring buffer (begin/end indices, -1 meaning empty) that is to implement    *)
(* the list, and the noise-and-sort shuffle that is to implement the bag.    *)
EXTENDS Structures, TLC

VARIABLES ring, steps, pushed, popped

Vals == {1, 2}
Base == [n |-> 2, dims |-> <<2>>, off |-> <<1>>, cap |-> 2, dt |-> "int", scale |-> 1, vlen |-> 1,
         verify |-> TRUE, lo |-> 1, hi |-> 3, fill |-> 0]
Configs == {[kind |-> k] @@ Base : k \in {"mem", "dict", "bag"}}
           \cup {[kind |-> "list", cap |-> q, n |-> m] @@ Base : q \in 1..3, m \in 1..2}

Keys(c) == IF c.kind = "list" THEN {<<k>> : k \in -c.cap-1..c.cap} ELSE {<<k>> : k \in 0..3}
Masks(c) == [1..c.n -> BOOLEAN]
MaxSteps(c) == IF c.kind = "list" THEN (IF c.n = 1 THEN 7 ELSE 4) ELSE IF c.kind = "bag" THEN 6 ELSE 4

\* -- the ring buffer of one list element
NoSlot == 0
RingInit(c) == [b |-> -1, e |-> -1, d |-> [k \in 0..c.cap-1 |-> <<NoSlot>>]]
RingEmpty(r) == r.b = -1
RingFull(c, r) == r.b >= 0 /\ (r.e - r.b) % c.cap = c.cap - 1
RingPush(c, r, v) == LET q == IF RingEmpty(r) THEN [r EXCEPT !.b = 0, !.e = 0] ELSE [r EXCEPT !.e = (@ + 1) % c.cap]
                     IN [q EXCEPT !.d[q.e] = v]
RingPushL(c, r, v) == LET q == IF RingEmpty(r) THEN [r EXCEPT !.b = 0, !.e = 0] ELSE [r EXCEPT !.b = (@ - 1) % c.cap]
                      IN [q EXCEPT !.d[q.b] = v]
RingPop(c, r) == IF r.b = r.e THEN [r EXCEPT !.b = -1, !.e = -1] ELSE [r EXCEPT !.e = (@ - 1) % c.cap]
RingPopL(c, r) == IF r.b = r.e THEN [r EXCEPT !.b = -1, !.e = -1] ELSE [r EXCEPT !.b = (@ + 1) % c.cap]
RingLen(c, r) == IF RingEmpty(r) THEN 0 ELSE ((r.e - r.b) % c.cap) + 1
RingAt(c, r, k) == r.d[((IF k >= 0 THEN r.b + k ELSE r.e + k + 1)) % c.cap]
RingAbs(c, r) == [j \in 1..RingLen(c, r) |-> RingAt(c, r, j - 1)]

Init == /\ cfg \in Configs
        /\ s = [i \in 1..cfg.n |-> InitElem(cfg)]
        /\ phase = FALSE
        /\ ring = IF cfg.kind = "list" THEN [i \in 1..cfg.n |-> RingInit(cfg)] ELSE <<>>
        /\ steps = 0
        /\ pushed = [i \in 1..cfg.n |-> <<>>]
        /\ popped = [i \in 1..cfg.n |-> <<>>]

UpdNames(c) == IF c.kind = "bag" THEN {} ELSE IF c.kind = "mem" THEN {"set", "add", "mul"} ELSE {"set", "sub"}

DoUpdate == \E name \in UpdNames(cfg), m \in Masks(cfg), v \in Vals :
              \E ks \in [1..cfg.n -> Keys(cfg)] :
                LET o == [name |-> name, mask |-> m, keys |-> ks, vals |-> [i \in 1..cfg.n |-> <<(v + i) % 3>>],
                          mods |-> [i \in 1..cfg.n |-> <<3>>]]
                IN /\ Update(o)
                   /\ ring' = IF cfg.kind # "list" \/ UpdOutcome(cfg, s, phase, o).exc THEN ring
                              ELSE [i \in 1..cfg.n |->
                                     IF ~m[i] THEN ring[i]
                                     ELSE LET k == ks[i][1]
                                              a == (IF k >= 0 THEN ring[i].b + k ELSE ring[i].e + k + 1) % cfg.cap
                                          IN [ring[i] EXCEPT !.d[a] = Arith(cfg, name, @, o.vals[i], o.mods[i])]]
                   /\ UNCHANGED <<pushed, popped>>
DoPush == /\ cfg.kind \in {"list", "bag"}
          /\ \E name \in (IF cfg.kind = "list" THEN {"append", "appendleft"} ELSE {"push"}), m \in Masks(cfg), v \in Vals :
               LET o == [name |-> name, mask |-> m, vals |-> [i \in 1..cfg.n |-> IF cfg.kind = "bag" THEN v ELSE <<v>>]]
                   ok == ~PushOutcome(cfg, s, phase, o).exc
               IN /\ Push(o)
                  /\ ring' = IF cfg.kind # "list" \/ ~ok THEN ring
                             ELSE [i \in 1..cfg.n |-> IF ~m[i] THEN ring[i]
                                                     ELSE IF name = "append" THEN RingPush(cfg, ring[i], o.vals[i])
                                                     ELSE RingPushL(cfg, ring[i], o.vals[i])]
                  /\ pushed' = IF ok THEN [i \in 1..cfg.n |-> IF m[i] THEN Append(pushed[i], o.vals[i]) ELSE pushed[i]]
                               ELSE pushed
                  /\ UNCHANGED popped
DoPop == /\ cfg.kind \in {"list", "bag"}
         /\ \E name \in (IF cfg.kind = "list" THEN {"pop", "popleft"} ELSE {"pop"}), m \in Masks(cfg) :
            \E r \in [1..cfg.n -> (IF cfg.kind = "bag" THEN Vals \cup {0} ELSE {<<v>> : v \in {0,1,2,-1,-2}})] :
              LET o == [name |-> name, mask |-> m] IN
              /\ Pop(o, r)
              /\ ring' = IF cfg.kind # "list" \/ PopFails(cfg, s, o) THEN ring
                         ELSE [i \in 1..cfg.n |-> IF ~m[i] THEN ring[i]
                                                 ELSE IF name = "pop" THEN RingPop(cfg, ring[i]) ELSE RingPopL(cfg, ring[i])]
              /\ popped' = IF PopFails(cfg, s, o) THEN popped
                           ELSE [i \in 1..cfg.n |-> IF m[i] THEN Append(popped[i], r[i]) ELSE popped[i]]
              /\ UNCHANGED pushed
DoClear == /\ cfg.kind \in {"list", "dict"}
           /\ \E m \in Masks(cfg) :
                /\ Clear([mask |-> m])
                /\ ring' = IF cfg.kind = "list" THEN [i \in 1..cfg.n |-> IF m[i] THEN RingInit(cfg) ELSE ring[i]] ELSE ring
                /\ UNCHANGED <<pushed, popped>>

Next == steps < MaxSteps(cfg) /\ steps' = steps + 1 /\ (DoUpdate \/ DoPush \/ DoPop \/ DoClear)

\* ------------------------------------------------------------- properties
\* the ring buffer implements the list (contents, length, emptiness and fullness)
RingRefines == cfg.kind = "list" =>
  \A i \in 1..cfg.n : /\ RingAbs(cfg, ring[i]) = s[i]
                      /\ RingFull(cfg, ring[i]) = (Len(s[i]) = cfg.cap)
                      /\ RingEmpty(ring[i]) = (s[i] = <<>>)
                      /\ \A k \in -cfg.cap..cfg.cap-1 : ListHas(s[i], k) => RingAt(cfg, ring[i], k) = s[i][ListPos(s[i], k)]
Bounded == cfg.kind \in {"list", "bag"} => \A i \in 1..cfg.n : Len(s[i]) <= cfg.cap
Count(q, v) == Cardinality({p \in 1..Len(q) : q[p] = v})
BagConserves == cfg.kind = "bag" =>
  \A i \in 1..cfg.n : \A v \in Vals : Count(pushed[i], v) = Count(popped[i], v) + Count(s[i], v)
\* masked-out elements are untouched, and a dictionary value never changes without its key being written
DictWellFormed == cfg.kind = "dict" => \A i \in 1..cfg.n : DOMAIN s[i].has = 1..NumSlots(cfg)

\* -- the shuffle of one bag: add noise * (number of values + 1) to each used slot, sort downwards, take the remainder
Range(lo, hi) == lo..hi-1
ShuffleOk(lo, hi, cap) ==
  LET empty == lo - 1
      shift == 1 - lo
      big == (hi - lo) + 1
  IN \A q \in UNION {[1..m -> Range(lo, hi)] : m \in 0..cap} :
     \A noise \in {f \in [1..cap -> 0..cap-1] : \A x, y \in 1..cap : x # y => f[x] # f[y]} :
       LET full == [p \in 1..cap |-> IF p <= Len(q) THEN q[p] ELSE empty]
           mark == [p \in 1..cap |-> full[p] + shift + (IF full[p] # empty THEN noise[p] * big ELSE 0)]
           srt == CHOOSE g \in [1..cap -> 1..cap] :
                    /\ \A x, y \in 1..cap : x # y => g[x] # g[y]
                    /\ \A x \in 1..cap-1 : mark[g[x]] >= mark[g[x + 1]]
           back == [p \in 1..cap |-> (mark[srt[p]] % big) - shift]
       IN /\ \A v \in Range(lo, hi) : Count(back, v) = Count(full, v)
          /\ \A p \in 1..cap : back[p] = empty <=> p > Len(q)
ASSUME ShuffleOk(0, 3, 3) /\ ShuffleOk(2, 4, 3) /\ ShuffleOk(-2, 0, 3)
=============================================================================

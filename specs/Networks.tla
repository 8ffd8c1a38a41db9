----------------------------- MODULE Networks -----------------------------
(* Networks of integers. A network is a sequence of layers. Its parameters   *)
(* are a flat vector: those of the first layer, then those of the second,    *)
(* and so on; matrices row by row. Recurrent layers keep a state.            *)
EXTENDS Integers, Sequences

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Clamp(v, lo, hi) == Max(lo, Min(hi, v))

\* activation functions which keep integers
Act(name, v) ==
    CASE name = "none" -> v
      [] name = "relu" -> Max(0, v)
      [] name = "relu6" -> Clamp(v, 0, 6)
      [] name = "hardtanh" -> Clamp(v, -1, 1)
      [] name = "round" -> v
Acts(name, x) == [i \in 1..Len(x) |-> Act(name, x[i])]

RECURSIVE Dot(_, _, _)
Dot(w, x, k) == IF k = 0 THEN 0 ELSE w[k] * x[k] + Dot(w, x, k - 1)
\* rows x columns matrix stored in p after the given offset
Times(p, off, rows, x) == [i \in 1..rows |-> Dot(SubSeq(p, off + (i - 1) * Len(x) + 1, off + i * Len(x)), x, Len(x))]
Plus(x, y) == [i \in 1..Len(x) |-> x[i] + y[i]]
Affine(p, off, rows, x, bias) ==
    LET y == Times(p, off, rows, x) IN
    IF bias THEN Plus(y, SubSeq(p, off + rows * Len(x) + 1, off + rows * Len(x) + rows)) ELSE y
AffineLen(rows, cols, bias) == rows * cols + (IF bias THEN rows ELSE 0)

(* a stack of linear maps and activations: <<[size, act, bias], ...>>         *)
RECURSIVE StackLen(_, _)
StackLen(in, stack) == IF stack = <<>> THEN 0 ELSE AffineLen(stack[1].size, in, stack[1].bias) + StackLen(stack[1].size, Tail(stack))
RECURSIVE Stack(_, _, _, _)
Stack(p, off, x, stack) ==
    IF stack = <<>> THEN x
    ELSE LET s == stack[1] IN
         Stack(p, off + AffineLen(s.size, Len(x), s.bias), Acts(s.act, Affine(p, off, s.size, x, s.bias)), Tail(stack))

Params(layer) ==
    CASE layer.kind = "linear" -> AffineLen(layer.out, layer.in, layer.bias)
      [] layer.kind = "stack" -> StackLen(layer.in, layer.stack)
      [] layer.kind = "control" -> AffineLen(layer.out, layer.in, layer.bias) + StackLen(layer.in, layer.stack)
      [] layer.kind = "rnn" -> layer.out * (layer.in + layer.out + 2)
      [] layer.kind = "waves" -> AffineLen(layer.out, layer.in, layer.bias) + 3 * layer.n * layer.out
      [] layer.kind = "tied" -> AffineLen(layer.in, layer.in, TRUE)
      [] OTHER -> 0
RECURSIVE ParamsOf(_)
ParamsOf(net) == IF net = <<>> THEN 0 ELSE Params(net[1]) + ParamsOf(Tail(net))

Sine(quarters) == CASE quarters % 4 = 1 -> 1 [] quarters % 4 = 3 -> -1 [] OTHER -> 0

\* the state of a layer which has not been used: zeros
Fresh(layer) == 
    CASE layer.kind = "rnn" -> [i \in 1..layer.out |-> 0]
      [] layer.kind = "waves" -> <<0>>   \* the time
      [] OTHER -> <<>>
FreshNet(net) == [k \in 1..Len(net) |-> Fresh(net[k])]

Layer(layer, p, off, x, h) ==
    CASE layer.kind = "linear" -> [y |-> Affine(p, off, layer.out, x, layer.bias), h |-> h]
      [] layer.kind = "stack" -> [y |-> Stack(p, off, x, layer.stack), h |-> h]
      [] layer.kind = "control" ->
            [y |-> Plus(Affine(p, off, layer.out, x, layer.bias), Stack(p, off + AffineLen(layer.out, layer.in, layer.bias), x, layer.stack)), h |-> h]
      [] layer.kind = "rnn" ->
            LET o == layer.out
                n == layer.in
                w2 == off + o * n
                b1 == w2 + o * o
                a == Plus(Times(p, off, o, x), SubSeq(p, b1 + 1, b1 + o))
                b == Plus(Times(p, w2, o, h), SubSeq(p, b1 + o + 1, b1 + 2 * o))
                y == Acts(layer.act, Plus(a, b))
            IN [y |-> y, h |-> y]
      [] layer.kind = "waves" ->  \* a linear map plus waves; angles are in quarters of a turn
            LET lin == Affine(p, off, layer.out, x, layer.bias)
                amp == off + AffineLen(layer.out, layer.in, layer.bias)
                frq == amp + layer.n * layer.out
                pha == frq + layer.n * layer.out
                RECURSIVE Sum(_, _)
                Sum(i, k) == IF k = 0 THEN 0
                             ELSE LET j == (k - 1) * layer.out + i IN p[amp + j] * Sine(p[frq + j] * h[1] + p[pha + j]) + Sum(i, k - 1)
            IN [y |-> [i \in 1..layer.out |-> lin[i] + Sum(i, layer.n)], h |-> <<h[1] + 1>>]
      [] layer.kind = "tied" ->   \* the same parameters used twice
            [y |-> Affine(p, off, layer.in, Affine(p, off, layer.in, x, TRUE), TRUE), h |-> h]
      [] layer.kind = "buffer" -> \* fixed factors which are not parameters
            [y |-> [i \in 1..Len(x) |-> x[i] * i], h |-> h]
      [] layer.kind = "act" -> [y |-> Acts(layer.act, x), h |-> h]
      [] layer.kind = "clip" -> [y |-> [i \in 1..Len(x) |-> Clamp(x[i], layer.lo, layer.hi)], h |-> h]
      [] layer.kind = "bin" ->   \* the nearer one of two limits; halfway values stay
            [y |-> [i \in 1..Len(x) |-> LET m == layer.lo + layer.hi IN
                    IF 2 * x[i] > m THEN layer.hi ELSE IF 2 * x[i] < m THEN layer.lo ELSE m \div 2], h |-> h]
      [] layer.kind = "slice" -> [y |-> SubSeq(x, layer.lo + 1, layer.hi), h |-> h]
      [] layer.kind = "apply" ->
            [y |-> [i \in 1..Len(x) |-> CASE layer.op = "+" -> x[i] + layer.arg [] layer.op = "-" -> x[i] - layer.arg [] layer.op = "*" -> x[i] * layer.arg
                                          [] layer.op = "**" -> x[i] * x[i]], h |-> h]

\* the output of a network, and its new state
RECURSIVE Run(_, _, _, _, _, _)
Run(net, p, off, x, hs, k) ==
    IF k > Len(net) THEN [y |-> x, hs |-> <<>>]
    ELSE LET r == Layer(net[k], p, off, x, hs[k])
             rest == Run(net, p, off + Params(net[k]), r.y, hs, k + 1)
         IN [y |-> rest.y, hs |-> <<r.h>> \o rest.hs]
Net(net, p, x, hs) == Run(net, p, 0, x, hs, 1)

\* outputs for inputs given one after another
RECURSIVE Play(_, _, _, _)
Play(net, p, xs, hs) ==
    IF xs = <<>> THEN <<>>
    ELSE LET r == Net(net, p, xs[1], hs) IN <<r.y>> \o Play(net, p, Tail(xs), r.hs)

-----------------------------------------------------------------------------
(* Policies which are used together: each has its own parameters and state.  *)
VARIABLES net, params, state
nvars == <<net, params, state>>

SetAll(ps, reset) ==
    /\ params' = ps
    /\ state' = IF reset THEN [i \in 1..Len(ps) |-> FreshNet(net)] ELSE state
    /\ UNCHANGED net
SetSome(is, ps, reset) ==   \* is: which ones; ps: for each policy, its new parameters (only those of is matter)
    /\ params' = [i \in 1..Len(params) |-> IF i \in is THEN ps[i] ELSE params[i]]
    /\ state' = [i \in 1..Len(params) |-> IF reset /\ i \in is THEN FreshNet(net) ELSE state[i]]
    /\ UNCHANGED net
Reset(is) ==
    /\ state' = [i \in 1..Len(params) |-> IF i \in is THEN FreshNet(net) ELSE state[i]]
    /\ UNCHANGED <<net, params>>
Outputs(xs) == [i \in 1..Len(params) |-> Net(net, params[i], xs[i], state[i]).y]
Call(xs) ==
    /\ state' = [i \in 1..Len(params) |-> Net(net, params[i], xs[i], state[i]).hs]
    /\ UNCHANGED <<net, params>>
=============================================================================

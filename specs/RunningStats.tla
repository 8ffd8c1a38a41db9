--------------------------- MODULE RunningStats ---------------------------
(* Statistics of observations: how many, their sum and their sum of squares, *)
(* for each element of an observation. An observation is a sequence of       *)
(* integers. Statistics are fed with single observations, with batches, with *)
(* the marked rows of batches, and with other statistics.                    *)
EXTENDS Integers, Sequences

Nothing == [n |-> 0, sum |-> <<>>, sq |-> <<>>]

Plus(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
Squares(x) == [i \in 1..Len(x) |-> x[i] * x[i]]

Joined(s, t) ==
    IF t.n = 0 THEN s
    ELSE IF s.n = 0 THEN t
    ELSE [n |-> s.n + t.n, sum |-> Plus(s.sum, t.sum), sq |-> Plus(s.sq, t.sq)]
One(x) == [n |-> 1, sum |-> x, sq |-> Squares(x)]

RECURSIVE All(_)
All(xs) == IF xs = <<>> THEN Nothing ELSE Joined(All(SubSeq(xs, 1, Len(xs) - 1)), One(xs[Len(xs)]))

\* the rows which are marked
RECURSIVE Marked(_, _)
Marked(xs, mask) ==
    IF xs = <<>> THEN <<>>
    ELSE (IF mask[1] = 1 THEN <<xs[1]>> ELSE <<>>) \o Marked(Tail(xs), Tail(mask))

-----------------------------------------------------------------------------
(* Normalisation. The mean is sum/n. The deviation is the square root of the *)
(* variance sq/n - (sum/n)^2, of which at least floor hundredths are used.   *)
(* With V = 100 * n^2 * variance, a normalised value is                      *)
(*      (x - mean) / deviation = 10 * (n * x - sum) / sqrt(V)                *)
(* and fractions are compared by squaring.                                   *)
Spread(s, i, floor) ==
    LET v == 100 * (s.n * s.sq[i] - s.sum[i] * s.sum[i])
        least == floor * s.n * s.n
    IN IF v > least THEN v ELSE least

\* num <= k * sqrt(V)
AtMost(num, V, k) == IF k >= 0 THEN num <= 0 \/ num * num <= k * k * V ELSE num < 0 /\ num * num >= k * k * V

Fine == 50   \* normalised values are given in these units, rounded; the limits are given in halves
Half == 25
Normal(s, x, i, floor, clip, Y) ==
    LET num == 10 * Fine * (s.n * x[i] - s.sum[i])
        V == Spread(s, i, floor)
        above(k) == AtMost(-num, V, -k)
        below(k) == AtMost(num, V, k)
    IN IF clip = <<>> THEN above(Y - 1) /\ below(Y + 1)
       ELSE /\ Y >= clip[1] * Half /\ Y <= clip[2] * Half
            /\ above(Y - 1) \/ Y = clip[1] * Half
            /\ below(Y + 1) \/ Y = clip[2] * Half
            \* a value at a limit was beyond it
            /\ Y = clip[1] * Half => below(Y + 1)
            /\ Y = clip[2] * Half => above(Y - 1)
NormalRow(s, x, floor, clip, row) == Len(row) = Len(x) /\ \A i \in 1..Len(x) : Normal(s, x, i, floor, clip, row[i])

\* a reported mean (in thousandths) and deviation (in hundredths)
MeanOk(s, i, m) == LET d == m * s.n - 1000 * s.sum[i] IN d <= s.n /\ -d <= s.n
DeviationOk(s, i, floor, d) ==
    LET V == Spread(s, i, floor) IN
    /\ (d + 1) * (d + 1) * s.n * s.n >= 100 * V
    /\ d <= 1 \/ (d - 1) * (d - 1) * s.n * s.n <= 100 * V
=============================================================================

------------------------------ MODULE Batching ------------------------------
(* Functions declared for arguments of fixed dimensionality, applied over extra *)
(* leading dimensions. A tensor is [shape, data] in row-major order; an argument *)
(* is a tensor with nd, its declared number of dimensions (-1: not batched).     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE MaxOf(_)
MaxOf(s) == IF s = <<>> THEN 0 ELSE Max2(Head(s), MaxOf(Tail(s)))

Extras(a) == IF a.nd < 0 \/ Len(a.shape) < a.nd THEN 0 ELSE Len(a.shape) - a.nd
Lead(a) == SubSeq(a.shape, 1, Extras(a))
ItemShape(a) == SubSeq(a.shape, Extras(a) + 1, Len(a.shape))
Depth(args) == MaxOf([i \in 1..Len(args) |-> Extras(args[i])])

\* the leading dimensions of the arguments are aligned at their right ends, and have to agree
Sizes(args, d) ==   \* sizes met at the d-th of the n common leading dimensions
  LET n == Depth(args) IN
  {Lead(args[i])[d - (n - Extras(args[i]))] : i \in {i \in 1..Len(args) : d > n - Extras(args[i])}}
Alignable(args) == \A d \in 1..Depth(args) : Cardinality(Sizes(args, d)) = 1
CommonLead(args) == [d \in 1..Depth(args) |-> CHOOSE s \in Sizes(args, d) : TRUE]

\* positions, counted from 0
RECURSIVE Offset(_, _)
Offset(shape, idx) == IF shape = <<>> THEN 0
  ELSE Offset(SubSeq(shape, 1, Len(shape) - 1), SubSeq(idx, 1, Len(idx) - 1)) * shape[Len(shape)] + idx[Len(idx)]
RECURSIVE Unravel(_, _)
Unravel(shape, o) == IF shape = <<>> THEN <<>>
  ELSE Append(Unravel(SubSeq(shape, 1, Len(shape) - 1), o \div shape[Len(shape)]), o % shape[Len(shape)])

\* which item of argument a is used at the common leading index idx
ItemOf(a, idx) == Offset(Lead(a), SubSeq(idx, Len(idx) - Extras(a) + 1, Len(idx)))
NumItems(a) == Prod(Lead(a))
Piece(t, k, size) == SubSeq(t.data, k * size + 1, (k + 1) * size)
\* the combination of items used, as a position in the table of all combinations
RECURSIVE Combo(_, _, _)
Combo(args, idx, i) == IF i = 0 THEN 0 ELSE Combo(args, idx, i - 1) * NumItems(args[i]) + ItemOf(args[i], idx)

TooSmall(a) == a.nd >= 0 /\ Len(a.shape) < a.nd
\* table[1 + combination]: the outputs (tensors) of the function on these items
OutputOk(args, table, j, out) ==
  LET lead == CommonLead(args)
      ishape == table[1][j].shape
      size == Prod(ishape)
  IN /\ out.shape = lead \o ishape
     /\ \A k \in 0..(Prod(lead) - 1) : Piece(out, k, size) = table[1 + Combo(args, Unravel(lead, k), Len(args))][j].data
CallOk(args, table, outs) == Len(outs) = Len(table[1]) /\ \A j \in 1..Len(outs) : OutputOk(args, table, j, outs[j])

\* a scalar argument is represented in the only type met among the considered tensors
Dtypes(args) == {args[i].dtype : i \in {i \in 1..Len(args) : args[i].kind = "tensor" /\ args[i].nd >= 0}}
ScalarClear(args) ==
  /\ (\E i \in 1..Len(args) : args[i].kind = "number") => Cardinality(Dtypes(args)) = 1
  /\ (\E i \in 1..Len(args) : args[i].kind = "bool") => Dtypes(args) # {}
ScalarDtypes(args, seen) ==
  \A i \in 1..Len(args) : CASE args[i].kind = "number" -> {seen[i]} = Dtypes(args)
                             [] args[i].kind = "bool" -> seen[i] = "bool"
                             [] OTHER -> seen[i] = args[i].dtype
Callable(args, small) == /\ (small \/ \A i \in 1..Len(args) : ~TooSmall(args[i]))
                         /\ Alignable(args) /\ ScalarClear(args)

\* ---- the same, by peeling one leading dimension after the other -----------------------
\* items used by argument a when at peeling level d (of n) the index is idx[d]
RECURSIVE Peel(_, _, _, _)
Peel(a, idx, d, used) ==
  IF d > Len(idx) THEN used
  ELSE Peel(a, idx, d + 1, IF Extras(a) >= Len(idx) - d + 1 THEN Append(used, idx[d]) ELSE used)

\* ---- random functions -------------------------------------------------------------------
RandomOk(mode, batched, refused, rows) ==
  CASE mode = "error" -> refused = batched
    [] mode = "same" -> ~refused /\ \A i, j \in 1..Len(rows) : rows[i] = rows[j]
    [] mode = "different" -> ~refused /\ \A i, j \in 1..Len(rows) : i # j => rows[i] # rows[j]
=============================================================================

------------------------------- MODULE Archive -------------------------------
(* The archive of MAP-Elites: one solution per cell. Rows carry the fitness as *)
(* ev[1] and the features as ev[2..]; a cell is a sequence of <<lo, hi>>.      *)
EXTENDS Genetic

VARIABLES filled     \* per cell
avars == <<gvars, filled>>

In(cell, ev) == \A k \in 1..Len(cell) : ev[k + 1] >= cell[k][1] /\ ev[k + 1] <= cell[k][2]
Candidates == Parents \o Children
Suitable(cell) == {i \in 1..Len(Candidates) : In(cell, Candidates[i].ev)}
\* the solution put into a cell, given the candidates (as a sequence of rows)
CellOk(sense, cand, cell, row, fill) ==
  LET S == {i \in 1..Len(cand) : In(cell, cand[i].ev)} IN
  IF S = {} THEN ~fill
  ELSE fill /\ \E i \in S : row = cand[i] /\ \A j \in S : ~BetterP(sense, cand[j].ev[1], cand[i].ev[1])
ArchiveOk(cells, new, fill) ==
  LET cand == Candidates IN
  /\ Len(new) = Len(cells) /\ Len(fill) = Len(cells)
  /\ \A c \in 1..Len(cells) : CellOk(cfg.senses[1], cand, cells[c], new[c], fill[c])

\* ---- feature grids -----------------------------------------------------------
NINF == -2000000001
PINF == 2000000001
\* the intervals of one feature: from -inf over bins-1 equidistant borders to +inf
Borders(lb, ub, bins) == IF bins = 2 THEN <<lb>> ELSE [k \in 1..(bins - 1) |-> lb + ((k - 1) * (ub - lb)) \div (bins - 2)]
Intervals(lb, ub, bins) ==
  LET b == Borders(lb, ub, bins)  e == <<NINF>> \o b \o <<PINF>> IN {<<e[k], e[k + 1]>> : k \in 1..bins}
\* a set of intervals is a chain from -inf to +inf
Chain(I) == /\ Cardinality({x \in I : x[1] = NINF}) = 1 /\ Cardinality({x \in I : x[2] = PINF}) = 1
            /\ \A x \in I : x[2] # PINF => Cardinality({y \in I : y[1] = x[2]}) = 1
            /\ \A x \in I : x[1] <= x[2]
Proj(cells, k) == {cells[c][k] : c \in 1..Len(cells)}
RECURSIVE ProdCard(_, _)
ProdCard(cells, k) == IF k = 0 THEN 1 ELSE Cardinality(Proj(cells, k)) * ProdCard(cells, k - 1)
GridTiles(cells, bins) ==
  /\ \A k \in 1..Len(bins) : Chain(Proj(cells, k)) /\ Cardinality(Proj(cells, k)) = bins[k]
  /\ Cardinality(Elems(cells)) = Len(cells)
  /\ Len(cells) = ProdCard(cells, Len(bins))
=============================================================================

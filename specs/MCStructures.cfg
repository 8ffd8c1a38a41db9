INIT Init
NEXT Next
INVARIANTS RingRefines Bounded BagConserves DictWellFormed
CHECK_DEADLOCK FALSE

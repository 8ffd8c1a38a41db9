CONSTANTS
  Names = {1, 2, 3}
  Histories = 2
  Ordinal = FALSE
INIT Init
NEXT Next
INVARIANT Functional
CHECK_DEADLOCK FALSE

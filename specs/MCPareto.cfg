INIT Init
NEXT Next
CONSTANTS
  N = 4
  M = 2
  MaxV = 2
INVARIANT All
CHECK_DEADLOCK FALSE

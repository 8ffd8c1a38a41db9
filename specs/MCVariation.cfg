INIT Init
NEXT Next
CONSTANTS
  L = 3
  K = 3
  NP = 2
INVARIANTS Observable Conserved
CHECK_DEADLOCK FALSE

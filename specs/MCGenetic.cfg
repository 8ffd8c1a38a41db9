INIT Init
NEXT Next
CONSTANTS
  N = 2
  MaxKids = 3
  MaxGen = 2
INVARIANTS SizeKept OwnEvals CanEnd
PROPERTY EliteKept
CHECK_DEADLOCK FALSE

INIT Init
NEXT Next
CONSTANTS
  MaxKids = 2
  MaxGen = 2
INVARIANT Suits
PROPERTY Keeps
CHECK_DEADLOCK FALSE

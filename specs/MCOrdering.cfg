INIT Init
NEXT Next
CONSTANTS
  N = 4
  MaxV = 2
INVARIANTS SortGivesTop SenseIsNegation Levels OrderOnly
CHECK_DEADLOCK FALSE

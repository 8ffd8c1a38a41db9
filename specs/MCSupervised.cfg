SPECIFICATION Spec
CONSTANTS MaxSize = 4
MaxDraws = 7
INVARIANTS Even Complete PerPass
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxOuter = 6
MaxPop = 9
INVARIANTS Counted Grown Listed Plain
PROPERTY BestStays
CHECK_DEADLOCK FALSE

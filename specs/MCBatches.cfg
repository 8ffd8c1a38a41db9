INIT Init
NEXT Next
CONSTANTS MaxSteps = 4
 MaxHandles = 3
INVARIANTS Belongs WellFormed
PROPERTY OneStoreAtATime
CHECK_DEADLOCK FALSE

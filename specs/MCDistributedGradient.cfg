INIT Init
NEXT Next
CONSTANTS MaxPop = 4 MaxWorkers = 3 MaxBudget = 3
INVARIANT Inv
CHECK_DEADLOCK FALSE

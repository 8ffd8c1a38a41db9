SPECIFICATION Spec
CONSTANTS MaxRows = 5 MaxWorkers = 3 Requests = 2
INVARIANT Inv
PROPERTY Answered
CHECK_DEADLOCK FALSE

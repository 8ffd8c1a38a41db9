SPECIFICATION Spec
CONSTANTS MaxFed = 5 NumWorkers = 3
INVARIANT Once
INVARIANT Kept
INVARIANT Seen
CHECK_DEADLOCK FALSE

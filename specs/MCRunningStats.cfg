SPECIFICATION Spec
CONSTANTS Values <- Few MaxFed = 4
INVARIANT Exact
INVARIANT Sound
CHECK_DEADLOCK FALSE

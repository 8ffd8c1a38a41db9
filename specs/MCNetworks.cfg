SPECIFICATION Spec
CONSTANT MaxSteps = 4
INVARIANT Separate
CHECK_DEADLOCK FALSE

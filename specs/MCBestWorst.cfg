SPECIFICATION Spec
CONSTANTS
  MaxEvals = 3
  NObj = 1
INVARIANT Exact
PROPERTIES Monotone Snapshots
CHECK_DEADLOCK FALSE

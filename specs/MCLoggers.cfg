SPECIFICATION Spec
CONSTANTS
  MaxGen = 5
  MaxLoggers = 2
INVARIANTS ExactlyTheRule FilesOk LastOnFile NoDoubles
CHECK_DEADLOCK FALSE

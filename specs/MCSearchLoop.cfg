SPECIFICATION Spec
CONSTANTS
  MaxSteps = 2
  MaxCbs = 1
INVARIANTS CounterIsGenerations Order Told Fresh
PROPERTY OneGeneration
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Sims = 2 Rewards = {0, 1} MaxSteps = 4 Rules <- SomeRules
INVARIANT Scores
INVARIANT Steps
INVARIANT Idle
CHECK_DEADLOCK FALSE

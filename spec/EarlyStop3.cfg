SPECIFICATION Spec
CONSTANTS
  MaxE = 2
  MaxV = 2
  MaxD = 2
  Levels = {1, 2}
  Trainings = 3
  Prunable = FALSE
INVARIANT EndsAtBest
INVARIANT NeverFromEarlier
INVARIANT Patience
INVARIANT Validated

CHECK_DEADLOCK FALSE

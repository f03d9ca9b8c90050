SPECIFICATION Spec
CONSTANTS
  MaxE = 5
  MaxV = 3
  MaxD = 3
  Levels = {1, 2, 3}
  Trainings = 1
  Prunable = TRUE
INVARIANT EndsAtBest
INVARIANT NeverFromEarlier
INVARIANT Patience
INVARIANT Validated

CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  MaxE = 6
  MaxV = 4
  MaxD = 4
  Levels = {1, 2, 3}
  Trainings = 1
  Prunable = TRUE
INVARIANT EndsAtBest
INVARIANT NeverFromEarlier
INVARIANT Patience
INVARIANT Validated
PROPERTY Terminates
CHECK_DEADLOCK FALSE

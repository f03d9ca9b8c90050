SPECIFICATION Spec
CONSTANTS
  MaxE = 2
  MaxV = 2
  MaxD = 1
  Levels = {1, 2}
  Trainings = 2
  Prunable = FALSE
INVARIANT EndsAtBest
INVARIANT NeverFromEarlier
INVARIANT Patience
INVARIANT Validated
PROPERTY Terminates
CHECK_DEADLOCK FALSE

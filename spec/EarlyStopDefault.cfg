SPECIFICATION Spec
CONSTANTS
  MaxE = 128
  MaxV = 5
  MaxD = 5
  Levels = {1, 2}
  Trainings = 1
  Prunable = FALSE
  Cfgs <- DefaultCfgs
INVARIANT EndsAtBest
INVARIANT NeverFromEarlier
INVARIANT Patience
INVARIANT Validated

CHECK_DEADLOCK FALSE

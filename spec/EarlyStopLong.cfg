SPECIFICATION Spec
CONSTANTS
  MaxE = 60
  MaxV = 1
  MaxD = 25
  Levels = {1, 2, 3}
  Trainings = 1
  Prunable = FALSE
  Cfgs <- DefaultCfgs
ACTION_CONSTRAINT Quiet
INVARIANT EndsAtBest
INVARIANT NeverFromEarlier
INVARIANT Patience
INVARIANT Validated

CHECK_DEADLOCK FALSE

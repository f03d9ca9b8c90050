SPECIFICATION Spec
CONSTANTS
  Workers = {w1, w2}
  MaxTrials = 3
  Levels = {1, 2}
  Shared = TRUE
INVARIANT MetricsKept
INVARIANT BestIsBest
INVARIANT SomeBest
INVARIANT FixedWins
INVARIANT NoFixedReturned
PROPERTY AllFinish
CHECK_DEADLOCK FALSE

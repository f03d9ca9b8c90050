SPECIFICATION Spec
VIEW NoTurns
CONSTANTS
  N = 9
  W = 4
  Chunk = 1
  Mode = "static"
  Atomic = TRUE
  Eager = FALSE
INVARIANTS Once Disjoint Untouched Complete
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
VIEW NoTurns
CONSTANTS
  N = 3
  W = 5
  Chunk = 1
  Mode = "cursor"
  Atomic = TRUE
  Eager = FALSE
INVARIANTS Once Disjoint Untouched Complete
CHECK_DEADLOCK FALSE

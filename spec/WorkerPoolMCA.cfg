SPECIFICATION Spec
VIEW NoTurns
CONSTANTS
  N = 7
  W = 4
  Chunk = 3
  Mode = "cursor"
  Atomic = TRUE
  Eager = FALSE
INVARIANTS Once Disjoint Untouched Complete
CHECK_DEADLOCK FALSE

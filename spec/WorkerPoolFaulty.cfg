SPECIFICATION Spec
VIEW NoTurns
CONSTANTS
  N = 4
  W = 2
  Chunk = 1
  Mode = "cursor"
  Atomic = FALSE
  Eager = FALSE
INVARIANTS Once Disjoint Untouched Complete
CHECK_DEADLOCK FALSE

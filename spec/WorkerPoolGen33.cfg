SPECIFICATION GSpec
CONSTANTS
  N = 3
  W = 3
  Chunk = 1
  Mode = "cursor"
  Atomic = TRUE
  Eager = TRUE
INVARIANT Inv
CHECK_DEADLOCK FALSE

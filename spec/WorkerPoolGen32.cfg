SPECIFICATION GSpec
CONSTANTS
  N = 2
  W = 3
  Chunk = 1
  Mode = "cursor"
  Atomic = TRUE
  Eager = TRUE
INVARIANT Inv
CHECK_DEADLOCK FALSE

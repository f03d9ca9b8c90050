SPECIFICATION GSpec
CONSTANTS
  N = 4
  W = 3
  Chunk = 1
  Mode = "static"
  Atomic = TRUE
  Eager = TRUE
INVARIANT Inv
CHECK_DEADLOCK FALSE

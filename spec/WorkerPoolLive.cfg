SPECIFICATION Spec
CONSTANTS
  N = 2
  W = 2
  Chunk = 1
  Mode = "cursor"
  Atomic = TRUE
  Eager = FALSE
PROPERTY Ends
CHECK_DEADLOCK FALSE

SPECIFICATION TSpec
CONSTANTS
  P = 1
  MaxAttempts = 1
  Kinds = {}
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Inits = {1, 2, 3}
  Maxes = {1, 2, 3, 5, 8}
  Counts = {1, 2}
  Levels = {1, 2}
INVARIANT Visited
INVARIANT Powers
INVARIANT NoneLeft
INVARIANT SomeBest
INVARIANT BestOfBests
CHECK_DEADLOCK FALSE

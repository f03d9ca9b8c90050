SPECIFICATION Spec
INVARIANTS OnceEach PositionsFollow
CHECK_DEADLOCK FALSE

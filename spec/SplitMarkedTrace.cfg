SPECIFICATION Spec
INVARIANTS NoLeak Complete EveryHolds
CHECK_DEADLOCK FALSE

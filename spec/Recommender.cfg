SPECIFICATION Spec
CONSTANT Depth = 0
INVARIANTS NothingBeforeTraining ExactMask
CHECK_DEADLOCK FALSE

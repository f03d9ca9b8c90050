SPECIFICATION SpecMC
CONSTANT Depth = 3
INVARIANTS NothingBeforeTraining Shape Agree ExactMask
CHECK_DEADLOCK FALSE

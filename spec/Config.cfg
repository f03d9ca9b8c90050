SPECIFICATION Spec
INVARIANTS NeverMixed Complete
CHECK_DEADLOCK FALSE

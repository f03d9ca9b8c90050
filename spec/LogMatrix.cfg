SPECIFICATION Spec
INVARIANTS Conserved
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS Aligned
CHECK_DEADLOCK FALSE

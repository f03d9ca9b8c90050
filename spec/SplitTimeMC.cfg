SPECIFICATION Spec
INVARIANTS NoLeak Sizes
CHECK_DEADLOCK FALSE

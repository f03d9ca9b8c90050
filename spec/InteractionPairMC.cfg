SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS Aligned OneValue Conserved
PROPERTY Kept
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS Frequencies NoDiagonal
CHECK_DEADLOCK FALSE

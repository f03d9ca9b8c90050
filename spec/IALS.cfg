SPECIFICATION Spec
INVARIANTS Definite
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS Partition Monotone Extremes
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS Partition
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS Disjoint TrainComplete NoLeak
CHECK_DEADLOCK FALSE

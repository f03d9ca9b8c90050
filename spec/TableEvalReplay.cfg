SPECIFICATION Spec
INVARIANTS OnlyCommon InOrder
CHECK_DEADLOCK FALSE

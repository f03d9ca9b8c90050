SPECIFICATION Spec
INVARIANTS Sorted NoBetterLeft Distinct OnlyEligible
CHECK_DEADLOCK FALSE

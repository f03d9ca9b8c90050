SPECIFICATION Spec
INVARIANT BestComplete
CHECK_DEADLOCK FALSE

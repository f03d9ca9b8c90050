SPECIFICATION Spec
INVARIANT NoFixed
CHECK_DEADLOCK FALSE

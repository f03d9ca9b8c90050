SPECIFICATION Spec
INVARIANTS OncePerUser FlatKeepsAll
CHECK_DEADLOCK FALSE

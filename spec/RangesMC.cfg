SPECIFICATION Spec
INVARIANT NameMeaning
INVARIANT RunAgrees
INVARIANT InBounds
INVARIANT Explicit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS RightCount OnlyCandidates
CHECK_DEADLOCK FALSE

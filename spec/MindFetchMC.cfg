SPECIFICATION Spec
INVARIANTS KeptStaysKept OnlyMirrorSeesToken NoPartial NothingLeftBehind AskedFirst
CHECK_DEADLOCK FALSE

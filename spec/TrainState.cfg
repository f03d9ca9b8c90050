SPECIFICATION Spec
INVARIANTS SnapshotsAreReachable OnlyTrainingAdvances
CHECK_DEADLOCK FALSE

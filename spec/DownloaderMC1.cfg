SPECIFICATION Spec
CONSTANTS
  P = 1
  MaxAttempts = 2
  Kinds = {"refused", "drop", "short", "mute", "interrupt", "kill"}
INVARIANTS CompleteOrAbsent ForeignKept NeverRefetched RefusalTouchesNothing RetryWorks ModelConforms
CHECK_DEADLOCK FALSE

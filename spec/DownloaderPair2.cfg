SPECIFICATION Spec
CONSTANTS P = 2 Who = {1, 2} Kill = TRUE
INVARIANTS CompleteIffSomeoneFinished OnlyDisturbedFail Emit
PROPERTY NeverWithdrawn
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS P = 1 Who = {1, 2, 3} Kill = TRUE
INVARIANTS CompleteIffSomeoneFinished OnlyDisturbedFail Emit
PROPERTY NeverWithdrawn
CHECK_DEADLOCK FALSE

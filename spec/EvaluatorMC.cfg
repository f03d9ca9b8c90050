SPECIFICATION Spec
INVARIANTS BlockInvariance OnlyRecommendable Bounded MonotoneHits
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Length = 5
  MaxWarm = 2
INVARIANT WellFormed
INVARIANT WarmUpIsOrdinary
INVARIANT PlainSidesStayPlain
INVARIANT MapsMatchFactors
INVARIANT ItemsFollowUsers
INVARIANT SnapshotsConsistent
INVARIANT Report
CHECK_DEADLOCK FALSE

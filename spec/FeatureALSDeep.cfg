SPECIFICATION Spec
CONSTANTS
  Length = 6
  MaxWarm = 3
INVARIANT WellFormed
INVARIANT WarmUpIsOrdinary
INVARIANT PlainSidesStayPlain
INVARIANT MapsMatchFactors
INVARIANT ItemsFollowUsers
INVARIANT SnapshotsConsistent
CHECK_DEADLOCK FALSE

CONSTANT ResT = 0
CONSTANT Final = 7
SPECIFICATION Spec
INVARIANTS DiskWithinRec Increasing NoLateStep Complete
CHECK_DEADLOCK FALSE

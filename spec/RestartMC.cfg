CONSTANTS MaxSteps = 6  MaxRuns = 3  Modes = {1, 2, 3}
SPECIFICATION MSpec
INVARIANT Inv
CHECK_DEADLOCK FALSE

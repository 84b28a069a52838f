CONSTANTS
  Res = 0
  RelDen = 100000
  MaxSlow = 1
  MaxFail = 2
  Inits <- McInitsS
  Ratios <- McRatios
  DtMins <- McDtMinsS
  Caps <- McCaps
  MileSets <- McMilesS
  Finals <- McFinalsS
SPECIFICATION Spec
INVARIANTS NeverBeyondFinal DoneAtFinal PositiveStep
PROPERTIES Increasing MilestonesHit CapRespected RatioBounded ConstantWhenFixed FailedNotAccepted NeverBelowMin ErrorOnlyWhenStuck Terminates
CHECK_DEADLOCK FALSE

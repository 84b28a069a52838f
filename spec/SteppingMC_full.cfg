CONSTANTS
  Res = 0
  RelDen = 100000
  MaxSlow = 2
  MaxFail = 3
  Inits <- McInits
  Ratios <- McRatios
  DtMins <- McDtMins
  Caps <- McCaps
  MileSets <- McMiles
  Finals <- McFinals
SPECIFICATION Spec
INVARIANTS NeverBeyondFinal DoneAtFinal PositiveStep
PROPERTIES Increasing MilestonesHit CapRespected RatioBounded ConstantWhenFixed FailedNotAccepted NeverBelowMin ErrorOnlyWhenStuck Terminates
CHECK_DEADLOCK FALSE

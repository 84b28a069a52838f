CONSTANTS
  Res = 4
  RelDen = 100000
SPECIFICATION TSpec
CHECK_DEADLOCK FALSE

CONSTANTS
  Res = 0
  RelDen = 100000
  MaxAttempts = 60
SPECIFICATION GSpec
CHECK_DEADLOCK FALSE

CONSTANT ResT = 20
SPECIFICATION TSpec
CHECK_DEADLOCK FALSE

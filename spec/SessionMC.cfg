CONSTANT MaxOps = 7
SPECIFICATION Spec
PROPERTY Function
CHECK_DEADLOCK FALSE

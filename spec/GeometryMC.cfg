CONSTANT N = 3
SPECIFICATION Spec
INVARIANTS Equivalent Unique
CHECK_DEADLOCK FALSE

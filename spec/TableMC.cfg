SPECIFICATION Spec
INVARIANTS Distinct Same3D
CHECK_DEADLOCK FALSE

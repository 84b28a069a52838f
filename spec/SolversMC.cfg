SPECIFICATION Spec
INVARIANTS HasSolver Fresh HeatKept
CHECK_DEADLOCK FALSE

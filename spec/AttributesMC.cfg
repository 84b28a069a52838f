SPECIFICATION Spec
INVARIANTS Usable Decided
PROPERTY Unchanged
CHECK_DEADLOCK FALSE

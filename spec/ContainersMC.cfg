CONSTANT MaxLen = 5
SPECIFICATION Spec
INVARIANTS OnlyGood Decided
CHECK_DEADLOCK FALSE

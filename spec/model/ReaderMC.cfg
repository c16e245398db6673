SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANT Inv
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT MaxLen = 7
INVARIANT Inv
CHECK_DEADLOCK FALSE

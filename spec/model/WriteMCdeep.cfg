SPECIFICATION Spec
CONSTANT MaxLen = 7
INVARIANT Inv
PROPERTY Step Stay
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT MaxLen = 4
INVARIANT Inv
PROPERTY Step Stay
CHECK_DEADLOCK FALSE

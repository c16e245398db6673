SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANT Inv
CHECK_DEADLOCK FALSE

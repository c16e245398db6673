SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANT Inv
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT Failing <- C04
CONSTANT Shards = 8
INVARIANT Verdict
CHECK_DEADLOCK FALSE

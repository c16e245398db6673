SPECIFICATION Spec
CONSTANT Failing <- C17
CONSTANT Shards = 8
INVARIANT Verdict
CHECK_DEADLOCK FALSE

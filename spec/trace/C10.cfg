SPECIFICATION Spec
CONSTANT Failing <- C10
CONSTANT Shards = 8
INVARIANT Verdict
CHECK_DEADLOCK FALSE

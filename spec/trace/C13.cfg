SPECIFICATION Spec
CONSTANT Failing <- C13
CONSTANT Shards = 8
INVARIANT Verdict
CHECK_DEADLOCK FALSE

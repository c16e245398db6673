SPECIFICATION Spec
CONSTANT Failing <- C05
CONSTANT Shards = 8
INVARIANT Verdict
CHECK_DEADLOCK FALSE

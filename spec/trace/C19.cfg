SPECIFICATION Spec
CONSTANT Failing <- C19
CONSTANT Shards = 8
INVARIANT Verdict
CHECK_DEADLOCK FALSE

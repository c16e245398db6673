SPECIFICATION Spec
CONSTANT Failing <- C11
CONSTANT Shards = 8
INVARIANT Verdict
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT Failing <- C01
CONSTANT Shards = 8
INVARIANT Verdict
CHECK_DEADLOCK FALSE

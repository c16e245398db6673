SPECIFICATION Spec
CONSTANT Failing <- C16
CONSTANT Shards = 8
INVARIANT Verdict
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT Failing <- C14
CONSTANT Shards = 8
INVARIANT Verdict
CHECK_DEADLOCK FALSE

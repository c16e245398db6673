SPECIFICATION Spec
CONSTANT Failing <- C08
CONSTANT Shards = 8
INVARIANT Verdict
CHECK_DEADLOCK FALSE

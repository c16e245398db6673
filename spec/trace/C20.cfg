SPECIFICATION Spec
CONSTANT Failing <- C20
CONSTANT Shards = 8
INVARIANT Verdict
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT Failing <- C12
CONSTANT Shards = 8
INVARIANT Verdict
CHECK_DEADLOCK FALSE

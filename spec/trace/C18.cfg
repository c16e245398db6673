SPECIFICATION Spec
CONSTANT Failing <- C18
CONSTANT Shards = 8
INVARIANT Verdict
CHECK_DEADLOCK FALSE

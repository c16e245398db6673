SPECIFICATION Spec
CONSTANT Failing <- C15
CONSTANT Shards = 8
INVARIANT Verdict
CHECK_DEADLOCK FALSE

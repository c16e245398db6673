SPECIFICATION Spec
CONSTANT Failing <- C06
CONSTANT Shards = 8
INVARIANT Verdict
CHECK_DEADLOCK FALSE

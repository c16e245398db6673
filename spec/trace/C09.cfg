SPECIFICATION Spec
CONSTANT Failing <- C09
CONSTANT Shards = 8
INVARIANT Verdict
CHECK_DEADLOCK FALSE

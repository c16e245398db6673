SPECIFICATION Spec
CONSTANT Failing <- C07
CONSTANT Shards = 8
INVARIANT Verdict
CHECK_DEADLOCK FALSE

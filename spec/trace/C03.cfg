SPECIFICATION Spec
CONSTANT Failing <- C03
CONSTANT Shards = 8
INVARIANT Verdict
CHECK_DEADLOCK FALSE

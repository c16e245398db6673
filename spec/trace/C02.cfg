SPECIFICATION Spec
CONSTANT Failing <- C02
CONSTANT Shards = 8
INVARIANT Verdict
CHECK_DEADLOCK FALSE

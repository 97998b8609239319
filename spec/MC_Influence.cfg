SPECIFICATION Spec
CONSTANT N = 4
CONSTANT A = 2
INVARIANT Confluent ReqIsFix SccPartition SubgamesOk IncentivesOk RecallKept
CHECK_DEADLOCK FALSE

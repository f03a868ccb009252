SPECIFICATION Spec
INVARIANTS Right StatsRight Tell
CONSTANT Steps = 3
CHECK_DEADLOCK FALSE

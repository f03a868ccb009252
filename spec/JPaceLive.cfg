SPECIFICATION Spec
INVARIANT Judged
CHECK_DEADLOCK FALSE
CONSTANT Which = "live"

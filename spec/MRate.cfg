SPECIFICATION Spec
CONSTANTS Procs = {1, 3}
 Sizes = {1, 2}
 Rates <- SomeRates
 Transfers = 2
INVARIANTS Respected Locked
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Procs = {1, 2, 3}
 Sizes = {2}
 Rates <- SomeRates
 Transfers = 1
INVARIANTS Respected Locked
PROPERTY Alive
CHECK_DEADLOCK FALSE

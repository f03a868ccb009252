SPECIFICATION Spec
CONSTANTS Rates <- SomeRates
 MaxOps = 4
INVARIANTS Settled Emit
CHECK_DEADLOCK FALSE

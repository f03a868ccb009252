SPECIFICATION Spec
CONSTANTS Rates <- SomeRates
 MaxOps = 5
INVARIANTS Settled Emit
CHECK_DEADLOCK FALSE

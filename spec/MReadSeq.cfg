SPECIFICATION Spec
CONSTANTS MaxOps = 6
INVARIANTS Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS Allowed AllDone Honest Sharp Emit
CONSTANTS
  Most = 1
  Pick <- All
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS Allowed AllDone Honest Sharp Emit
CONSTANTS
  Most = 2
  Pick <- All
CHECK_DEADLOCK FALSE

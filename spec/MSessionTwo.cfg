SPECIFICATION Spec
INVARIANTS Allowed AllDone Honest Sharp Emit
CONSTANTS
  Most = 2
  Pick <- Few
CHECK_DEADLOCK FALSE

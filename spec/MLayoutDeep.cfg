SPECIFICATION Spec
INVARIANTS Agree Exact
CHECK_DEADLOCK FALSE
CONSTANTS MaxFiles = 4
 MaxLen = 5
 MaxPlen = 7

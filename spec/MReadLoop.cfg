SPECIFICATION Spec
CONSTANTS MaxBytes = 4
 BufLen = 2
INVARIANT Right
PROPERTIES Stops HandsOver
CHECK_DEADLOCK FALSE

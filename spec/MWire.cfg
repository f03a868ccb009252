SPECIFICATION Spec
CONSTANTS MaxMsgs = 2
 MaxBytes = 5
INVARIANTS Inverse Sound Prefix Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS Right Told
CONSTANT Most = 4
CHECK_DEADLOCK FALSE

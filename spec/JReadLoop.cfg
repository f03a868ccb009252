SPECIFICATION Spec
INVARIANTS Certain Judged
CHECK_DEADLOCK FALSE

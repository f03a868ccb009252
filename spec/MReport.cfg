SPECIFICATION Spec
INVARIANTS Exact Rounded Told1
CONSTANT Around = 8
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS Same Live
CHECK_DEADLOCK FALSE
CONSTANT MaxBits = 10

SPECIFICATION Spec
CONSTANTS
  MaxLen = 6
  Alphabet = {105, 108, 100, 101, 48, 49, 58, 45}
INVARIANTS TextOK ValueOK
CHECK_DEADLOCK FALSE

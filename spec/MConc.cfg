SPECIFICATION Spec
INVARIANTS Unmixed Rule
PROPERTY AllDone
CHECK_DEADLOCK FALSE
CONSTANTS Readers = {r1, r2}
 Writers = {w1, w2}
 Cells = 2

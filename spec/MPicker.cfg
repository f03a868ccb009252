SPECIFICATION Spec
CONSTANTS Peers = {1, 2}
 N = 2
 MaxOps = 4
 Cap = 2
 Most <- Cap
INVARIANTS Right Emit
CHECK_DEADLOCK FALSE

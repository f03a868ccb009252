SPECIFICATION Spec
CONSTANTS Peers = {1, 2, 3}
 N = 3
 MaxOps = 1000
 Cap = 2
 Most <- Cap
INVARIANTS Right
VIEW NoHist
CHECK_DEADLOCK FALSE

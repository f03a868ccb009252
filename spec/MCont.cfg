SPECIFICATION Spec
INVARIANT Walks
CHECK_DEADLOCK FALSE
CONSTANTS Nodes = {1, 2, 3, 4}
 Lists = {1, 2}

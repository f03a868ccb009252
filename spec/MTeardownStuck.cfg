SPECIFICATION Spec
INVARIANT Order
PROPERTIES Ends DeafEnds
CHECK_DEADLOCK FALSE
CONSTANT GiveUp = FALSE

SPECIFICATION Spec
INVARIANTS HeldExact NothingLost PrepareIsStable PrepareKeeps Emit
CHECK_DEADLOCK FALSE
CONSTANTS L1 = 2
 L2 = 3
 Plen = 2
 Wrongs = 9
 Deaths = 1

SPECIFICATION Spec
INVARIANTS HeldExact NothingLost PrepareIsStable PrepareKeeps Emit
CHECK_DEADLOCK FALSE
CONSTANTS L1 = 3
 L2 = 4
 Plen = 3
 Wrongs = 9
 Deaths = 2

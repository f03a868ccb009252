SPECIFICATION Spec
INVARIANT AlwaysBetween
PROPERTY Ends
CHECK_DEADLOCK FALSE
CONSTANTS MaxLen = 5
 Block = 2
 MaxCuts = 2

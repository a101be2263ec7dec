SPECIFICATION Spec
CONSTANTS
 Bug = "four"
 MaxN = 5
 MaxS = 8
INVARIANT Recorded
CHECK_DEADLOCK FALSE

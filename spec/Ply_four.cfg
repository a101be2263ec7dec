SPECIFICATION Spec
CONSTANTS
 Bug = "four"
 MaxN = 5
 MaxS = 8
INVARIANT Exact
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 Bug = "ok"
 MaxN = 5
 MaxS = 8
INVARIANT Exact
CHECK_DEADLOCK FALSE

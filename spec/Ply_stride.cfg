SPECIFICATION Spec
CONSTANTS
 Bug = "stride"
 MaxN = 5
 MaxS = 8
INVARIANT Exact
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Layout = "colmajor"
 MaxN = 2
 Vals = {1, 2}
 MaxOps = 4
INVARIANT ReadsBack
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Layout = "split"
 MaxN = 2
 Vals = {1, 2}
 MaxOps = 4
INVARIANT ReadsBack
CHECK_DEADLOCK FALSE

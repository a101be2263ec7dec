SPECIFICATION Spec
CONSTANTS
 N = 5
 T = 3
 Mode = "tbb"
INVARIANT Conserved
CHECK_DEADLOCK FALSE

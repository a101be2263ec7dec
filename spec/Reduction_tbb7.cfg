SPECIFICATION Spec
CONSTANTS
 N = 7
 T = 4
 Mode = "tbb"
INVARIANT Conserved
CHECK_DEADLOCK FALSE

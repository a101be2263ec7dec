SPECIFICATION Spec
CONSTANTS
 N = 3
 T = 1
 Mode = "carry"
INVARIANT Conserved
CHECK_DEADLOCK FALSE

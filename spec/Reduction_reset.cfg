SPECIFICATION Spec
CONSTANTS
 N = 3
 T = 1
 Mode = "reset"
INVARIANT Conserved
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 N = 3
 T = 2
 Mode = "shared"
INVARIANT Conserved
CHECK_DEADLOCK FALSE

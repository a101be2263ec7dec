SPECIFICATION Spec
CONSTANTS
 N = 6
 T = 3
 Mode = "omp"
INVARIANT Conserved
CHECK_DEADLOCK FALSE

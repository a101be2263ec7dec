SPECIFICATION Spec
CONSTANTS
 N = 4
 T = 3
 Mode = "omp"
INVARIANT Conserved
CHECK_DEADLOCK FALSE

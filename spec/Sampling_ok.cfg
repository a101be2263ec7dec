SPECIFICATION Spec
CONSTANTS
 N = 6
 Requests = {0, 1, 2, 3, 5, 6, 9}
 Replace = FALSE
INVARIANTS Distinct Feasible Finally AllSubsets
PROPERTY Terminates
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 N = 6
 Requests = {0, 1, 2, 3, 5, 6, 9}
 Replace = TRUE
INVARIANTS Distinct Feasible Finally AllSubsets

CHECK_DEADLOCK FALSE

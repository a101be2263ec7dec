SPECIFICATION Spec
CONSTANTS
 L = 4000
 Tol = 100
 Mode = "overwrite"
INVARIANT Restricted
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 L = 4000
 Tol = 100
 Mode = "ok"
INVARIANT Restricted
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 L = 20
 Tol = 100
 Mode = "ok"
INVARIANT Restricted
CHECK_DEADLOCK FALSE

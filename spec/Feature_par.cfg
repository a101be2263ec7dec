SPECIFICATION Spec
CONSTANTS
 Coords <- C2
 NPts = 1
 Dirs <- D0
 N = 4
 Workers = {1, 2, 3}
 Mode = "ok"
INVARIANT Filled
CHECK_DEADLOCK FALSE

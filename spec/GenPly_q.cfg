SPECIFICATION Spec
CONSTANTS
 MaxN = 6
 MaxS = 8
CHECK_DEADLOCK FALSE

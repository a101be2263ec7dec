SPECIFICATION Spec
CONSTANTS
 MaxN = 40
 MaxS = 12
CHECK_DEADLOCK FALSE

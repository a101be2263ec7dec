SPECIFICATION Spec
CONSTANTS
 MaxLen = 7
 MaxKey = 3
CHECK_DEADLOCK FALSE

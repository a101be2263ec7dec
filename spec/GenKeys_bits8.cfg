SPECIFICATION Spec
CONSTANTS
 MaxLen = 8
 MaxKey = 1
CHECK_DEADLOCK FALSE

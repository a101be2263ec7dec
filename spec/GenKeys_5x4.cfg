SPECIFICATION Spec
CONSTANTS
 MaxLen = 5
 MaxKey = 3
CHECK_DEADLOCK FALSE

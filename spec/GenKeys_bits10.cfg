SPECIFICATION Spec
CONSTANTS
 MaxLen = 10
 MaxKey = 1
CHECK_DEADLOCK FALSE

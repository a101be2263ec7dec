SPECIFICATION Spec
CONSTANTS
 MaxLen = 5
 Positions <- Pos6
CHECK_DEADLOCK FALSE

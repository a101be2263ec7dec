SPECIFICATION Spec
CONSTANTS
 MaxLen = 6
 Positions <- Pos6
CHECK_DEADLOCK FALSE

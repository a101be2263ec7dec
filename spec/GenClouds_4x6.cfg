SPECIFICATION Spec
CONSTANTS
 MaxLen = 4
 Positions <- Pos6
CHECK_DEADLOCK FALSE

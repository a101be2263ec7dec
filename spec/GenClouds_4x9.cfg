SPECIFICATION Spec
CONSTANTS
 MaxLen = 4
 Positions <- Pos9
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 MaxLen = 4
 Positions <- PosVox
CHECK_DEADLOCK FALSE

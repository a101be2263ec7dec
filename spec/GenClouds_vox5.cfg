SPECIFICATION Spec
CONSTANTS
 MaxLen = 5
 Positions <- PosVox
CHECK_DEADLOCK FALSE

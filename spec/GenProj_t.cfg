SPECIFICATION Spec
CONSTANTS
 MaxW = 6
 MaxH = 3
 MaxWin = 8
CHECK_DEADLOCK FALSE

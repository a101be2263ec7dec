SPECIFICATION Spec
CONSTANTS
 MaxW = 4
 MaxH = 3
 MaxWin = 5
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 MaxW = 7
 MaxWin = 9
 Skip = TRUE
 Coords <- C3
INVARIANT Once
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 MaxW = 4
 MaxWin = 4
 Skip = FALSE
 Coords <- C3
INVARIANT Once
CHECK_DEADLOCK FALSE

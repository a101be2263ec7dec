SPECIFICATION Spec
CONSTANTS
 MaxW = 4
 MaxWin = 4
 Skip = TRUE
 Coords <- C3
INVARIANT Once
CHECK_DEADLOCK FALSE

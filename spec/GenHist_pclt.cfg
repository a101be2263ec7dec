SPECIFICATION Spec
CONSTANTS
 MaxLen = 4
 NumOps = 13
 Horizons = {0, 1}
 Cycles = {0}
 Caps = {0}
CHECK_DEADLOCK FALSE

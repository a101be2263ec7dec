SPECIFICATION Spec
CONSTANTS
 MaxLen = 5
 NumOps = 8
 Horizons = {0}
 Cycles = {0}
 Caps = {0}
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 MaxLen = 2
 NumOps = 16
 Horizons = {0}
 Cycles = {0}
 Caps = {0}
CHECK_DEADLOCK FALSE

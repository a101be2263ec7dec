SPECIFICATION Spec
CONSTANTS
 MaxLen = 3
 NumOps = 12
 Horizons = {0, 2, 4, 5}
 Cycles = {0, 2}
 Caps = {0, 1, 2, 3}
CHECK_DEADLOCK FALSE

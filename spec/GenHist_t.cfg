SPECIFICATION Spec
CONSTANTS
 MaxLen = 6
 NumOps = 6
 Horizons = {0, 1, 2}
 Cycles = {1, 2, 3}
 Caps = {1, 3}
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 MaxLen = 3
 NumOps = 12
 Horizons = {0, 1, 2, 3, 4, 5, 6, 7}
 Cycles = {0, 1, 2, 3, 4}
 Caps = {0, 1, 2, 3}
CHECK_DEADLOCK FALSE

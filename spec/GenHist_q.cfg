SPECIFICATION Spec
CONSTANTS
 MaxLen = 5
 NumOps = 5
 Horizons = {0, 1, 2}
 Cycles = {1, 2}
 Caps = {1, 3}
CHECK_DEADLOCK FALSE

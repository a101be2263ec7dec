SPECIFICATION Spec
CONSTANTS
 Points <- P4
 MaxIns = 5
 MaxBatch = 1
 Horizons = {1, 2}
 Cycles = {2, 3}
 Caps = {2}
 Min2s = {0, 10}
 CellSize = 4
 Rebuild = TRUE
 Forget = FALSE
INVARIANTS IndexExact ContentExact GaussExact WithinCap
PROPERTY OnlyExpired
CHECK_DEADLOCK FALSE

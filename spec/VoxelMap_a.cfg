SPECIFICATION Spec
CONSTANTS
 Points <- P3
 MaxIns = 4
 MaxBatch = 2
 Horizons = {0, 1}
 Cycles = {1, 2}
 Caps = {1, 2}
 Min2s = {0, 4}
 CellSize = 4
 Rebuild = TRUE
 Forget = FALSE
INVARIANTS IndexExact ContentExact GaussExact WithinCap
PROPERTY OnlyExpired
CHECK_DEADLOCK FALSE

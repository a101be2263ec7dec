SPECIFICATION Spec
CONSTANTS
 Points <- P3
 MaxIns = 3
 MaxBatch = 1
 Horizons = {2}
 Cycles = {2}
 Caps = {1}
 Min2s = {0}
 CellSize = 4
 Rebuild = TRUE
 Forget = TRUE
INVARIANTS IndexExact ContentExact GaussExact WithinCap
PROPERTY OnlyExpired
CHECK_DEADLOCK FALSE

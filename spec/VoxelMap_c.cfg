SPECIFICATION Spec
CONSTANTS
 Points <- P2
 MaxIns = 7
 MaxBatch = 1
 Horizons = {0, 2}
 Cycles = {1, 3}
 Caps = {1}
 Min2s = {0}
 CellSize = 4
 Rebuild = TRUE
 Forget = FALSE
INVARIANTS IndexExact ContentExact GaussExact WithinCap
PROPERTY OnlyExpired
CHECK_DEADLOCK FALSE

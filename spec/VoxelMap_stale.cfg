SPECIFICATION Spec
CONSTANTS
 Points <- P2
 MaxIns = 4
 MaxBatch = 1
 Horizons = {0}
 Cycles = {2}
 Caps = {1}
 Min2s = {0}
 CellSize = 4
 Rebuild = FALSE
 Forget = FALSE
INVARIANTS IndexExact ContentExact GaussExact WithinCap
PROPERTY OnlyExpired
CHECK_DEADLOCK FALSE

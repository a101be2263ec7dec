SPECIFICATION Spec
CONSTANTS
  N = 4
  MaxKey = 2
  Algo = "merge"
  Cutoff = 1
  WaitChildren = FALSE
  Tile = 2
  Bits = 1
  Barriers = TRUE
INVARIANTS Sorted DisjointRanges

CHECK_DEADLOCK FALSE

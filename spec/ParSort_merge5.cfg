SPECIFICATION Spec
CONSTANTS
  N = 5
  MaxKey = 2
  Algo = "merge"
  Cutoff = 1
  WaitChildren = TRUE
  Tile = 2
  Bits = 1
  Barriers = TRUE
INVARIANTS Sorted DisjointRanges

CHECK_DEADLOCK FALSE

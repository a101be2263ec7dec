SPECIFICATION Spec
CONSTANTS
  N = 4
  MaxKey = 3
  Algo = "radix"
  Cutoff = 1
  WaitChildren = TRUE
  Tile = 2
  Bits = 1
  Barriers = FALSE
INVARIANTS Sorted DisjointRanges

CHECK_DEADLOCK FALSE

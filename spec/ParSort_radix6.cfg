SPECIFICATION Spec
CONSTANTS
  N = 6
  MaxKey = 3
  Algo = "radix"
  Cutoff = 1
  WaitChildren = TRUE
  Tile = 2
  Bits = 1
  Barriers = TRUE
INVARIANTS Sorted DisjointRanges

CHECK_DEADLOCK FALSE

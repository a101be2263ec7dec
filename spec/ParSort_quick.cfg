SPECIFICATION Spec
CONSTANTS
  N = 4
  MaxKey = 2
  Algo = "quick"
  Cutoff = 1
  WaitChildren = TRUE
  Tile = 2
  Bits = 1
  Barriers = TRUE
INVARIANTS Sorted DisjointRanges
PROPERTY Terminates
CHECK_DEADLOCK FALSE

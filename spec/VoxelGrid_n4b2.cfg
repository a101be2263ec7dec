SPECIFICATION Spec
CONSTANTS
  N = 4
  Keys = {0, 1, 2}
  BlockSize = 2
  AtomicReserve = TRUE
  SkipInvalid = TRUE
INVARIANTS EveryOutputInOneVoxel Disjoint Contract Serial
PROPERTY Terminates
CHECK_DEADLOCK FALSE

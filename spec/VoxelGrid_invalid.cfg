SPECIFICATION Spec
CONSTANTS
  N = 4
  Keys = {0, 1, 2}
  BlockSize = 4
  AtomicReserve = TRUE
  SkipInvalid = FALSE
INVARIANTS EveryOutputInOneVoxel

CHECK_DEADLOCK FALSE

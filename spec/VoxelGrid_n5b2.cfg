SPECIFICATION Spec
CONSTANTS
  N = 5
  Keys = {0, 1, 2}
  BlockSize = 2
  AtomicReserve = TRUE
  SkipInvalid = TRUE
INVARIANTS EveryOutputInOneVoxel Disjoint Contract Serial

CHECK_DEADLOCK FALSE

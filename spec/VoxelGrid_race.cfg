SPECIFICATION Spec
CONSTANTS
  N = 4
  Keys = {0, 1, 2}
  BlockSize = 2
  AtomicReserve = FALSE
  SkipInvalid = TRUE
INVARIANTS Contract

CHECK_DEADLOCK FALSE

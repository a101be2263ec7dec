SPECIFICATION Spec
CONSTANTS
  N = 3
  Positions <- Pos3
  Queries <- Qry
  Leaf = 1
  Cap = 6
  AtomicAlloc = TRUE
  JoinChildren = TRUE
INVARIANTS WithinCapacity DistinctNodes DisjointRanges IsPermutation Exact EarlyStop
PROPERTY Terminates
CHECK_DEADLOCK FALSE

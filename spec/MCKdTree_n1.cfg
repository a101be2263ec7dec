SPECIFICATION Spec
CONSTANTS
  N = 1
  Positions <- Pos3
  Queries <- Qry
  Leaf = 1
  Cap = 2
  AtomicAlloc = TRUE
  JoinChildren = TRUE
INVARIANTS WithinCapacity DistinctNodes DisjointRanges IsPermutation Exact EarlyStop
PROPERTY Terminates
CHECK_DEADLOCK FALSE

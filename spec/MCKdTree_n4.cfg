SPECIFICATION Spec
CONSTANTS
  N = 4
  Positions <- Pos2
  Queries <- Qry
  Leaf = 1
  Cap = 8
  AtomicAlloc = TRUE
  JoinChildren = TRUE
INVARIANTS WithinCapacity DistinctNodes DisjointRanges IsPermutation Exact EarlyStop
PROPERTY Terminates
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  N = 5
  Positions <- Pos2
  Queries <- Qry
  Leaf = 2
  Cap = 10
  AtomicAlloc = TRUE
  JoinChildren = TRUE
INVARIANTS WithinCapacity DistinctNodes DisjointRanges IsPermutation Exact EarlyStop

CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  N = 3
  Positions <- Pos2
  Queries <- Qry
  Leaf = 1
  Cap = 6
  AtomicAlloc = FALSE
  JoinChildren = TRUE
INVARIANTS DistinctNodes

CHECK_DEADLOCK FALSE

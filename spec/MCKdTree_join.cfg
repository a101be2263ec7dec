SPECIFICATION Spec
CONSTANTS
  N = 3
  Positions <- Pos2
  Queries <- Qry
  Leaf = 1
  Cap = 6
  AtomicAlloc = TRUE
  JoinChildren = FALSE
INVARIANTS Exact

CHECK_DEADLOCK FALSE

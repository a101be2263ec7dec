SPECIFICATION Spec
CONSTANTS
  N = 3
  Positions <- Pos2
  Queries <- Qry
  Leaf = 1
  Cap = 3
  AtomicAlloc = TRUE
  JoinChildren = TRUE
INVARIANTS WithinCapacity

CHECK_DEADLOCK FALSE

------------------------------- MODULE KnnTrace -------------------------------
(* Traces of nearest-neighbour searches in a kd-tree (any builder, any front end).
     tree : pts                       a tree was built over these lattice points
     knn  : q, k, eps2, idx, d2       a search answered idx (0-based) at squared distances d2 (lattice units);
                                      eps2 = 2 * early-termination threshold
   The state is the current tree; building replaces it, searching leaves it unchanged. *)
EXTENDS TraceBase, Knn
VARIABLE cur                 \* trace line of the current tree, 0 if none

Pts == Log[cur].pts
BuildTree == IsEvent("tree") /\ cur' = l
SearchTree ==
  /\ IsEvent("knn")
  /\ cur > 0
  /\ LET e == Ev
         n == Len(Pts)
         D(i) == SqDist(Pts[i + 1], e.q)
     IN Holds(IsKnnEps(0..n-1, D, n, e.k, e.eps2, e.idx, e.d2))
  /\ UNCHANGED cur

Init == l = 1 /\ cur = 0
Next == BuildTree \/ SearchTree \/ (End /\ UNCHANGED cur)
Spec == Init /\ [][Next]_<<l, cur>>
=============================================================================

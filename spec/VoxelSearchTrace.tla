---------------------------- MODULE VoxelSearchTrace ----------------------------
(* Searches in an incremental voxel map whose current points are given:
     map    : L, offs, pts, ok        the stored points in the order of their identifiers, and the selected neighbourhood
     offs   : offs                    the neighbourhood was changed
     search : q, k, idx, d2, res      answer: positions in pts (0-based, -1 if the identifier is unknown), squared distances, and the
                                      points (with attributes) the identifiers resolve to *)
EXTENDS TraceBase, Knn
R == INSTANCE VoxelRule
VARIABLES cur, offs
Map == IsEvent("map") /\ Ev.ok /\ cur' = l /\ offs' = Ev.offs
Offs == IsEvent("offs") /\ offs' = Ev.offs /\ UNCHANGED cur
Search ==
  /\ IsEvent("search")
  /\ cur > 0
  /\ Holds(LET e == Ev
               m == Log[cur]
               c == R!Cell(e.q, m.L)
               C == {i \in 0..Len(m.pts) - 1 : R!Near(R!Cell(m.pts[i + 1], m.L), c, offs)}
               D(i) == SqDist(m.pts[i + 1], e.q)
           IN /\ IsKnn(C, D, Cardinality(C), e.k, e.idx, e.d2)
              /\ e.res = [i \in 1..Len(e.idx) |-> m.pts[e.idx[i] + 1]])
  /\ UNCHANGED <<cur, offs>>
Init == l = 1 /\ cur = 0 /\ offs = 1
Next == Map \/ Offs \/ Search \/ (End /\ UNCHANGED <<cur, offs>>)
Spec == Init /\ [][Next]_<<l, cur, offs>>
=============================================================================

--------------------------------- MODULE ProjTrace ---------------------------------
(* A projective index over lattice points and its searches.
   proj: pts, W, H, cu, cv (cell of each point; outside the image: not Inside), equi (equirectangular: the cells are also decided by
         the specification where it can), mh, mv (border modes)
   cell: what a search with an empty window in a cell finds; the specification remembers it as the content of the cell
   knn : q, u, v (its cell), wh, wv (window), k, eps2, idx, d2 *)
EXTENDS TraceBase, ProjRule, Knn
VARIABLES cur, rec
C == Log[cur]
RightCells(e) == e.equi /\ Decidable(e.W, e.H) => \A i \in 1..Len(e.pts) : InCell(e.pts[i], e.W, e.H, e.cu[i], e.cv[i])
Proj == IsEvent("proj") /\ Holds(RightCells(Ev)) /\ cur' = l /\ rec' = <<>>
(* the cell is empty iff no point projects to it, and holds one of its points *)
Cell == /\ IsEvent("cell")
        /\ Holds(\A ins \in {{i \in 1..Len(C.pts) : C.cu[i] = Ev.u /\ C.cv[i] = Ev.v}} :
             IF ins = {} THEN Ev.idx = <<>> ELSE Len(Ev.idx) = 1 /\ Ev.idx[1] + 1 \in ins)
        /\ rec' = (IF Ev.idx = <<>> THEN rec ELSE (<<Ev.u, Ev.v>> :> Ev.idx[1]) @@ rec)
        /\ UNCHANGED cur
(* cells with points must have been probed before *)
Known == \A i \in 1..Len(C.pts) : Inside(C.cu[i], C.cv[i], C.W, C.H) => <<C.cu[i], C.cv[i]>> \in DOMAIN rec
SearchOk(e) ==
  \A hor \in {Line(e.u, C.W, e.wh, C.mh)}, ver \in {Line(e.v, C.H, e.wv, C.mv)} :
  \A cand \in {{rec[c] : c \in {d \in DOMAIN rec : d[1] \in hor /\ d[2] \in ver}}} :
    LET D(i) == SqDist(C.pts[i + 1], e.q) IN IsKnnEps(cand, D, Cardinality(cand), e.k, e.eps2, e.idx, e.d2)
QueryCell(e) == C.equi /\ Decidable(C.W, C.H) => InCell(e.q, C.W, C.H, e.u, e.v)
Knn2 == IsEvent("knn") /\ Holds(Known /\ QueryCell(Ev) /\ SearchOk(Ev)) /\ UNCHANGED <<cur, rec>>
Init == l = 1 /\ cur = 0 /\ rec = <<>>
Next == Proj \/ Cell \/ Knn2 \/ (End /\ UNCHANGED <<cur, rec>>)
Spec == Init /\ [][Next]_<<l, cur, rec>>
================================================================================

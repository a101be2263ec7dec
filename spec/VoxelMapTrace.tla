----------------------------- MODULE VoxelMapTrace -----------------------------
(* Histories of an incremental voxel map:
     new     : kind ("flat" or "gauss"), L, cap, min2, horizon, cycle
     set     : the same settings, changed in the middle of a history
     ins     : R, t, pts, rep        an insertion of these points (each rep times) at this pose
     idle    : n                     that many insertions of nothing
     content : size, cells           what the map reports: per cell its points (flat) or its mean and covariance times Q (gauss)
   The state is the content that VoxelRule prescribes for the history so far. *)
EXTENDS TraceBase, VoxelRule
VARIABLES vox, count, cfg
Q == 256

Params(e) == [L |-> e.L, cap |-> e.cap, min2 |-> e.min2, horizon |-> e.horizon, cycle |-> e.cycle, kind |-> e.kind, rep |-> 1]
New == IsEvent("new") /\ vox' = <<>> /\ count' = 0 /\ cfg' = Params(Ev)
Set == IsEvent("set") /\ cfg' = Params(Ev) /\ UNCHANGED <<vox, count>>
Insert ==
  /\ IsEvent("ins")
  /\ LET e == Ev
         P == [i \in 1..Len(e.pts) |-> Transform(e.R, e.t, e.pts[i])]
     IN vox' = IF cfg.kind = "flat" THEN InsertRule(AddFlat, vox, P, count, cfg) ELSE InsertRule(AddGauss, vox, P, count, [cfg EXCEPT !.rep = e.rep])
  /\ count' = count + 1
  /\ UNCHANGED cfg

Idle == IsEvent("idle") /\ vox' = IdleRule(vox, count, Ev.n, cfg) /\ count' = count + Ev.n /\ UNCHANGED cfg

Bag(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, u) == Len(s) = Len(u) /\ \A i \in 1..Len(s) : Bag(s, s[i]) = Bag(u, s[i])
Close(n, m, s) == LET d == n * m - Q * s IN d <= n /\ -d <= n

FlatOk(e) ==
  /\ e.size = Cardinality(DOMAIN vox)
  /\ Len(e.cells) = Cardinality({v \in DOMAIN vox : vox[v].pts # <<>>})
  /\ Cardinality({e.cells[i].v : i \in 1..Len(e.cells)}) = Len(e.cells)
  /\ \A i \in 1..Len(e.cells) : /\ e.cells[i].v \in DOMAIN vox
                                /\ SameBag(e.cells[i].pts, vox[e.cells[i].v].pts)
GaussOk(e) ==
  /\ e.size = Cardinality(DOMAIN vox)
  /\ Len(e.cells) = e.size
  /\ {e.cells[i].v : i \in 1..Len(e.cells)} = DOMAIN vox
  /\ \A i \in 1..Len(e.cells) :
       LET g == vox[e.cells[i].v] IN
       /\ \A a \in 1..3 : Close(g.n, e.cells[i].m[a], g.s[a])
       /\ \A a \in 1..6 : Close(g.n, e.cells[i].c[a], g.c[a])
Content ==
  /\ IsEvent("content")
  /\ Ev.ok
  /\ Holds(IF cfg.kind = "flat" THEN FlatOk(Ev) ELSE GaussOk(Ev))
  /\ UNCHANGED <<vox, count, cfg>>

Init == l = 1 /\ vox = <<>> /\ count = 0 /\ cfg = <<>>
Next == New \/ Set \/ Insert \/ Idle \/ Content \/ (End /\ UNCHANGED <<vox, count, cfg>>)
Spec == Init /\ [][Next]_<<l, vox, count, cfg>>
=============================================================================

-------------------------------- MODULE VoxelMap --------------------------------
(* Design of the incremental voxel map: a vector of voxels, a hash index from cell to position in the vector, an insertion counter and
   a periodic clean-up that compacts the vector and rebuilds the index.  The abstract content (abs) follows VoxelRule; the invariants
   say that the vector and the index represent exactly it, so that searches through the index see exactly the stored points.
   Rebuild = FALSE is a negative control (the index is not rebuilt after compaction).  The Gaussian part keeps either a mean or a sum
   per voxel, as the code does; Forget = TRUE is a negative control (the mean is not turned back into a sum). *)
EXTENDS VoxelRule, TLC
CONSTANTS Points,        \* lattice points that may be inserted
          MaxIns,        \* number of insertions
          MaxBatch,      \* points per insertion
          Horizons, Cycles, Caps, Min2s, CellSize,
          Rebuild, Forget
VARIABLES flat, index, count, cfg, abs, gabs

vars == <<flat, index, count, cfg, abs, gabs>>

Pt(p) == p \o <<0, 0, 0, 0, 0, 0, 0, 0, 0>>
Batches == UNION {[1..n -> {Pt(p) : p \in Points}] : n \in 0..MaxBatch}

Init ==
  /\ flat = <<>> /\ index = <<>> /\ count = 0 /\ abs = <<>> /\ gabs = <<>>
  /\ cfg \in [L : {CellSize}, cap : Caps, min2 : Min2s, horizon : Horizons, cycle : Cycles, rep : {1}]

(* state of the implementation while it adds one point *)
AddOne(st, p) ==
  LET v == Cell(p, cfg.L)
      st1 == IF v \in DOMAIN st.index THEN st
             ELSE [flat |-> Append(st.flat, [cell |-> v, lru |-> count, pts |-> <<>>, n |-> 0, acc |-> <<0, 1>>, final |-> FALSE]),
                   index |-> (v :> Len(st.flat) + 1) @@ st.index]
      i == st1.index[v]
      w == st1.flat[i]
      \* the accumulator is a fraction <<numerator, denominator>>: a mean if final, a sum otherwise (one coordinate stands for all)
      acc1 == IF w.final /\ ~Forget THEN <<w.acc[1] * w.n, w.acc[2]>> ELSE w.acc
      w1 == [w EXCEPT !.lru = count, !.pts = IF Admitted(w.pts, p, cfg) THEN Append(w.pts, p) ELSE w.pts,
                      !.n = w.n + 1, !.acc = <<acc1[1] + p[1] * acc1[2], acc1[2]>>, !.final = FALSE]
  IN [st1 EXCEPT !.flat = [st1.flat EXCEPT ![i] = w1]]
RECURSIVE AddSeq(_, _, _)
AddSeq(st, pts, i) == IF i > Len(pts) THEN st ELSE AddSeq(AddOne(st, pts[i]), pts, i + 1)

Keep(w) == w.lru + cfg.horizon >= count + 1
Clean(st) ==
  IF (count + 1) % cfg.cycle # 0 THEN st
  ELSE LET f == SelectSeq(st.flat, Keep) IN
       [flat |-> f,
        index |-> IF Rebuild THEN [v \in {f[i].cell : i \in DOMAIN f} |-> CHOOSE i \in DOMAIN f : f[i].cell = v] ELSE st.index]
Finalize(f) == [i \in DOMAIN f |-> IF f[i].final THEN f[i] ELSE [f[i] EXCEPT !.acc = <<f[i].acc[1], f[i].acc[2] * f[i].n>>, !.final = TRUE]]

InBounds(st) == \A v \in DOMAIN st.index : st.index[v] \in DOMAIN st.flat
Insert(pts) ==
  LET st == Clean(AddSeq([flat |-> flat, index |-> index], pts, 1)) IN
  /\ count < MaxIns
  /\ InBounds([flat |-> flat, index |-> index])
  /\ flat' = Finalize(st.flat) /\ index' = st.index
  /\ count' = count + 1
  /\ abs' = InsertRule(AddFlat, abs, pts, count, cfg)
  /\ gabs' = InsertRule(AddGauss, gabs, pts, count, cfg)
  /\ UNCHANGED cfg
Configure == \E h \in Horizons, c \in Cycles, k \in Caps, m \in Min2s :
               /\ cfg' = [cfg EXCEPT !.horizon = h, !.cycle = c, !.cap = k, !.min2 = m]
               /\ UNCHANGED <<flat, index, count, abs, gabs>>
Next == (\E b \in Batches : Insert(b)) \/ Configure
Spec == Init /\ [][Next]_vars

(* The index finds every voxel, and only voxels, by its cell. *)
IndexExact == /\ DOMAIN index = {flat[i].cell : i \in DOMAIN flat}
              /\ \A v \in DOMAIN index : index[v] \in DOMAIN flat /\ flat[index[v]].cell = v
              /\ Cardinality({flat[i].cell : i \in DOMAIN flat}) = Len(flat)
(* The vector holds exactly the content prescribed by the history. *)
ContentExact == /\ {flat[i].cell : i \in DOMAIN flat} = DOMAIN abs
                /\ \A i \in DOMAIN flat : flat[i].pts = abs[flat[i].cell].pts /\ flat[i].lru = abs[flat[i].cell].lru
GaussExact == \A i \in DOMAIN flat : LET g == gabs[flat[i].cell] IN
                /\ flat[i].n = g.n
                /\ flat[i].final
                /\ flat[i].acc[1] * g.n = g.s[1] * flat[i].acc[2]
(* A cell that disappears was last touched more than the horizon ago, at a clean-up. *)
OnlyExpired == [][\A v \in DOMAIN abs : v \notin DOMAIN abs' => count' % cfg.cycle = 0 /\ abs[v].lru + cfg.horizon < count']_vars
WithinCap == \A v \in DOMAIN abs : \A c \in Caps : (\A d \in Caps : d <= c) => Len(abs[v].pts) <= c
=============================================================================

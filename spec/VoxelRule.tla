------------------------------- MODULE VoxelRule -------------------------------
(* What an incremental voxel map contains, as a function of its insertion history (the contract shared by the design models and the
   trace specifications).  All quantities are integers on the lattice.

   A map is a function from occupied cells to records
     pts  the stored points (point maps)                 n, s, c   count, sum of points, sum of covariances (Gaussian maps)
     lru  the insertion that last touched the cell
   A point is <<x, y, z, nx, ny, nz, cxx, cxy, cxz, cyy, cyz, czz>>.
   cfg is [L, cap, min2, horizon, cycle, rep]: edge of a cell, capacity, twice the minimum squared distance, LRU horizon and clear
   cycle; rep is how often each point of an insertion is repeated (Gaussian maps only). *)
EXTENDS Integers, Sequences, FiniteSets

Cell(p, L) == <<p[1] \div L, p[2] \div L, p[3] \div L>>      \* \div rounds towards minus infinity
Sqr(x) == x * x
Dist2(p, q) == Sqr(p[1] - q[1]) + Sqr(p[2] - q[2]) + Sqr(p[3] - q[3])

(* R is a 3x3 integer matrix in row-major order, t a translation. *)
Rot(R, x, y, z, i) == R[3*i-2] * x + R[3*i-1] * y + R[3*i] * z
SymAt(c, i, j) == LET a == IF i <= j THEN i ELSE j
                      b == IF i <= j THEN j ELSE i
                  IN c[6 + (IF a = 1 THEN b ELSE IF a = 2 THEN b + 2 ELSE 6)]
RCR(R, p, i, j) == R[3*i-2] * (R[3*j-2]*SymAt(p,1,1) + R[3*j-1]*SymAt(p,1,2) + R[3*j]*SymAt(p,1,3))
                 + R[3*i-1] * (R[3*j-2]*SymAt(p,2,1) + R[3*j-1]*SymAt(p,2,2) + R[3*j]*SymAt(p,2,3))
                 + R[3*i]   * (R[3*j-2]*SymAt(p,3,1) + R[3*j-1]*SymAt(p,3,2) + R[3*j]*SymAt(p,3,3))
Transform(R, t, p) ==
  << Rot(R, p[1], p[2], p[3], 1) + t[1], Rot(R, p[1], p[2], p[3], 2) + t[2], Rot(R, p[1], p[2], p[3], 3) + t[3],
     Rot(R, p[4], p[5], p[6], 1), Rot(R, p[4], p[5], p[6], 2), Rot(R, p[4], p[5], p[6], 3),
     RCR(R, p, 1, 1), RCR(R, p, 1, 2), RCR(R, p, 1, 3), RCR(R, p, 2, 2), RCR(R, p, 2, 3), RCR(R, p, 3, 3) >>

(* --- point maps --- *)
Admitted(stored, p, cfg) == /\ Len(stored) < cfg.cap
                            /\ \A i \in 1..Len(stored) : 2 * Dist2(stored[i], p) >= cfg.min2
AddFlat(vox, p, stamp, cfg) ==
  LET v == Cell(p, cfg.L)
      old == IF v \in DOMAIN vox THEN vox[v].pts ELSE <<>>
      new == IF Admitted(old, p, cfg) THEN Append(old, p) ELSE old
  IN [u \in DOMAIN vox \cup {v} |-> IF u = v THEN [pts |-> new, lru |-> stamp] ELSE vox[u]]

(* --- Gaussian maps --- *)
AddGauss(vox, p, stamp, cfg) ==
  LET v == Cell(p, cfg.L)
      o == IF v \in DOMAIN vox THEN vox[v] ELSE [n |-> 0, s |-> <<0, 0, 0>>, c |-> <<0, 0, 0, 0, 0, 0>>, lru |-> 0]
      new == [n |-> o.n + cfg.rep, s |-> [i \in 1..3 |-> o.s[i] + cfg.rep * p[i]], c |-> [i \in 1..6 |-> o.c[i] + cfg.rep * p[i + 6]], lru |-> stamp]
  IN [u \in DOMAIN vox \cup {v} |-> IF u = v THEN new ELSE vox[u]]

RECURSIVE AddAll(_, _, _, _, _, _)
AddAll(Add(_, _, _, _), vox, pts, i, stamp, cfg) ==
  IF i > Len(pts) THEN vox ELSE AddAll(Add, Add(vox, pts[i], stamp, cfg), pts, i + 1, stamp, cfg)

(* After the count-th insertion: a periodic clean-up drops the cells that were last touched more than the horizon ago. *)
Expire(vox, count, cfg) ==
  IF count % cfg.cycle # 0 THEN vox
  ELSE [v \in {u \in DOMAIN vox : vox[u].lru + cfg.horizon >= count} |-> vox[v]]

(* One insertion into a map that has seen "count" insertions so far. *)
InsertRule(Add(_, _, _, _), vox, pts, count, cfg) == Expire(AddAll(Add, vox, pts, 1, count, cfg), count + 1, cfg)

(* n insertions without points into a map that has seen "count" insertions: of the clean-ups on the way the last one drops all that any
   of them drops. *)
IdleRule(vox, count, n, cfg) ==
  LET last == cfg.cycle * ((count + n) \div cfg.cycle) IN
  IF last <= count THEN vox ELSE [v \in {u \in DOMAIN vox : vox[u].lru + cfg.horizon >= last} |-> vox[v]]

(* --- neighbourhoods --- *)
Absv(a) == IF a < 0 THEN -a ELSE a
Near(u, v, offsets) ==
  LET dx == Absv(u[1] - v[1]) dy == Absv(u[2] - v[2]) dz == Absv(u[3] - v[3]) IN
  CASE offsets = 27 -> dx <= 1 /\ dy <= 1 /\ dz <= 1
    [] offsets = 7  -> dx + dy + dz <= 1
    [] OTHER        -> dx + dy + dz = 0
=============================================================================

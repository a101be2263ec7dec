-------------------------------- MODULE AlignRule --------------------------------
(* Recovering a known motion.  Target points q are integer vectors.  The source starts displaced by the rational motion
   x -> (M x + t) / d of the target frame (M / d a rotation).  If every point is displaced by less than a quarter of the smallest
   distance between two target points, the nearest target point of every source point is its own counterpart, before and during
   the alignment, and the motion has to be recovered. *)
EXTENDS Integers, Sequences, FiniteSets
Sq(x) == x * x
Dist2(a, b) == Sq(a[1] - b[1]) + Sq(a[2] - b[2]) + Sq(a[3] - b[3])
(* d times the displacement of q *)
Off(m, q) == [i \in 1..3 |-> m.M[3 * i - 2] * q[1] + m.M[3 * i - 1] * q[2] + m.M[3 * i] * q[3] + m.t[i] - m.d * q[i]]
Norm2(v) == Sq(v[1]) + Sq(v[2]) + Sq(v[3])
Rotation(m) == /\ \A i, j \in 1..3 : LET row(k) == [c \in 1..3 |-> m.M[3 * (k - 1) + c]]
                                     IN row(i)[1] * row(j)[1] + row(i)[2] * row(j)[2] + row(i)[3] * row(j)[3] = (IF i = j THEN Sq(m.d) ELSE 0)
               /\ m.d > 0
(* points are at least four units apart, no point is moved by one unit or more, correspondences of up to two units are allowed *)
Spaced(pts) == \A i \in 1..Len(pts) : \A j \in 1..i-1 : Dist2(pts[i], pts[j]) >= 16
Basin(pts, m, corr) == (\A i \in 1..Len(pts) : Norm2(Off(m, pts[i])) < Sq(m.d)) /\ corr >= 2
(* tolerances: res: largest distance between an aligned source point and its counterpart, in 1/1000 of (translation tolerance plus
   rotation tolerance times the extent of the scene); orth: deviation from a proper rotation in 1e-9 *)
Rigid(r) == r.orth <= 10 /\ r.det /\ r.bottom /\ r.untouched
Recovered(r, n) == r.res <= 1000 /\ r.inliers = n
(* Backends differ by rounding only.  Steps that start at the solution are decided by rounding (moved is FALSE), and so are the
   steps of an ill-conditioned system. *)
Agree(d, moved) == (d.well => d.pose <= 100 /\ d.hess <= 100 /\ d.inl) /\ (d.well /\ moved => d.iters /\ d.conv)
================================================================================

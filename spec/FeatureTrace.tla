------------------------------- MODULE FeatureTrace -------------------------------
(* Estimated features of whole clouds, times Q.
   cloud : pts (lattice points), off (offset of the cloud in lattice units)
   feat  : what ("n" normals, "c" covariances, "b" both), key (names the search and k: runs with one key agree), k, kept (coordinates
           are bit for bit the same), size (of the arrays that were asked for), and per point: nb (1-based neighbours as returned by
           the supplied search; <<>> in nb: none were recorded), thr (with nb empty: a squared distance within which exactly the k nearest
           neighbours lie; -1 if there is none because of ties), n (normal), c (covariance xx xy xz yy yz zz), shape (zero fourth
           components, exactly symmetric)
   agree : a large cloud, estimated by two backends: d: largest difference *)
EXTENDS TraceBase, FeatureRule
VARIABLES cl, ref
Q == 16384
Tol == 4
Sub(p, q) == <<p[1] - q[1], p[2] - q[2], p[3] - q[3]>>
Dist2(p, q) == LET d == Sub(p, q) IN d[1] * d[1] + d[2] * d[2] + d[3] * d[3]
N == Len(cl.pts)
Nbs(e, i) == IF e.nb # <<>> THEN e.nb[i] ELSE SelectSeq([j \in 1..N |-> j], LAMBDA j : Dist2(cl.pts[i], cl.pts[j]) <= e.thr[i])
Min(a, b) == IF a < b THEN a ELSE b
(* is the set of neighbours known? *)
Certain(e, i, nb) == e.nb # <<>> \/ (e.thr[i] >= 0 /\ Len(nb) = Min(e.k, N))
Count(e, i) == IF e.nb # <<>> THEN Len(e.nb[i]) ELSE Min(e.k, N)
ProjN(n) == Mat(LAMBDA a, b : Round(n[a] * n[b], Q))
Cov(c) == <<<<c[1], c[2], c[3]>>, <<c[2], c[4], c[5]>>, <<c[3], c[5], c[6]>>>>
ProjC(c) == Mat(LAMBDA a, b : Round(1000 * ((IF a = b THEN Q ELSE 0) - Cov(c)[a][b]), 999))
Facing(i, n) == LET f(a) == (cl.pts[i][a] + cl.off[a]) * n[a] g(a) == Abs(cl.pts[i][a] + cl.off[a]) IN Sum3(f) <= Sum3(g)
Least(i, nb, P) ==
  \A S0 \in {Scatter([j \in 1..Len(nb) |-> Sub(cl.pts[nb[j]], cl.pts[i])])} : \A S \in {ScaledUp(S0, 20000)} : LeastSpread(S, P, Q, Tol)
GoodDir(e, i, nb, P) == IsProjector(P, Q, 3 * Tol) /\ (Certain(e, i, nb) => Least(i, nb, P))
GoodPoint(e, i) ==
  IF Count(e, i) < 5
  THEN /\ e.what # "c" => e.n[i] = <<0, 0, 0>>
       /\ e.what # "n" => e.c[i] = <<Q, 0, 0, Q, 0, Q>>
  ELSE \A nb \in {Nbs(e, i)} :
       /\ e.what # "c" => GoodDir(e, i, nb, ProjN(e.n[i])) /\ Facing(i, e.n[i])
       /\ e.what # "n" => GoodDir(e, i, nb, ProjC(e.c[i]))
Near(x, y) == Len(x) = Len(y) /\ \A a \in 1..Len(x) : Abs(x[a] - y[a]) <= 1
Agrees(e) == ref.key = e.key =>
  /\ e.what # "c" => \A i \in 1..N : Near(e.n[i], ref.n[i])
  /\ e.what # "n" => \A i \in 1..N : Near(e.c[i], ref.c[i])
Cloud == IsEvent("cloud") /\ cl' = [pts |-> Ev.pts, off |-> Ev.off] /\ ref' = [key |-> ""]
Feat == /\ IsEvent("feat")
        /\ Holds(Ev.kept /\ Ev.shape /\ Ev.size = N /\ (\A i \in 1..N : GoodPoint(Ev, i)) /\ Agrees(Ev))
        /\ ref' = (IF ref.key = Ev.key \/ Ev.what # "b" THEN ref ELSE [key |-> Ev.key, n |-> Ev.n, c |-> Ev.c])
        /\ UNCHANGED cl
Large == IsEvent("agree") /\ Holds(Ev.kept /\ Ev.d <= 1 /\ Ev.unit <= 1) /\ UNCHANGED <<cl, ref>>
Init == l = 1 /\ cl = [pts |-> <<>>, off |-> <<0, 0, 0>>] /\ ref = [key |-> ""]
Next == Cloud \/ Feat \/ Large \/ (End /\ UNCHANGED <<cl, ref>>)
Spec == Init /\ [][Next]_<<l, cl, ref>>
================================================================================

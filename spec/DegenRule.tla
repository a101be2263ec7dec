-------------------------------- MODULE DegenRule --------------------------------
(* Results of the public operations on inputs of degenerate size.  n: number of points, d: number of distinct points. *)
EXTENDS Integers, Sequences
Min(a, b) == IF a < b THEN a ELSE b
Sign(n) == IF n > 0 THEN 1 ELSE 0
Found(n, k) == Min(n, k)
OneVoxel(n) == Sign(n)             \* all points in one voxel
OwnVoxel(n, d) == d                \* every distinct point in its own voxel
Samples(n, m) == Min(n, m)
MinNeighbors == 5
Invalid(n, k) == Found(n, k) < MinNeighbors
Zero == <<0, 0, 0, 0>>
Identity3 == <<1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0>>
(* an alignment without any pair of points within reach has nothing to go by *)
NoPairs(ns, nt, apart) == ns = 0 \/ nt = 0 \/ apart
Neutral(e) == e.inliers = 0 /\ e.moved = 0 /\ e.error = 0
================================================================================

--------------------------------- MODULE Knn ---------------------------------
(* The contract of every nearest-neighbour search in the library (KdTree, voxel maps, projective search), stated over
   integer lattice coordinates, where squared distances are exact. *)
EXTENDS Integers, Sequences, FiniteSets

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
Sq(x) == x * x
SqDist(p, q) == Sq(p[1] - q[1]) + Sq(p[2] - q[2]) + Sq(p[3] - q[3])
Range(s) == {s[i] : i \in DOMAIN s}

(* idx/d2 name distinct candidates with their true distance in ascending order. *)
Genuine(C, D(_), idx, d2) ==
  /\ Len(d2) = Len(idx)
  /\ \A i \in 1..Len(idx) : idx[i] \in C /\ d2[i] = D(idx[i])
  /\ \A i \in 1..Len(idx)-1 : d2[i] <= d2[i+1]
  /\ Cardinality(Range(idx)) = Len(idx)

(* Nothing outside the answer is closer than its worst member, and the answer has as many members as it can have. *)
Complete(C, D(_), n, k, idx, d2) ==
  /\ Len(idx) = Min2(k, n)
  /\ Len(idx) > 0 => LET w == d2[Len(idx)]
                         R == Range(idx)
                     IN \A c \in C : D(c) >= w \/ c \in R

(* C: candidate identifiers, n: their number, D: squared distance of a candidate. *)
IsKnn(C, D(_), n, k, idx, d2) == Genuine(C, D, idx, d2) /\ Complete(C, D, n, k, idx, d2)

(* eps2 is twice the early-termination threshold on squared distances. *)
IsKnnEps(C, D(_), n, k, eps2, idx, d2) ==
  /\ Genuine(C, D, idx, d2)
  /\ \/ Complete(C, D, n, k, idx, d2)
     \/ Len(idx) = k /\ 2 * d2[k] < eps2
=============================================================================

------------------------------- MODULE SystemTrace -------------------------------
(* Linearized systems of the real factors next to evaluations of their own error, times Q:
     sys    : fac, p, q (source and target point), n (normal; axis: a unit axis), ct/cs (covariances xx xy xz yy yz zz), pose
              (M / d) x + t, H, b, e, and the error at the perturbed poses of SystemRule (far: large coordinates; only the
              translation part is compared)
     kernel : a robust kernel; c2: the square of its width in the unit of the errors below
     rob    : e (error of the plain factor), lo/hi (smallest and largest ratio of an entry of the robust system to the plain one,
              times 2^20), rest (entries that are zero stay zero)
     roberr : e, w: robust error over plain error at some pose; same: the pose of the preceding linearization *)
EXTENDS TraceBase, SystemRule
VARIABLES seen, last
Q == 4096
Abs(x) == IF x < 0 THEN -x ELSE x
Close(a, b, tol) == Abs(a - b) <= tol
Sum6(f(_)) == f(1) + f(2) + f(3) + f(4) + f(5) + f(6)
Err(e) == [zero |-> e.zero, tp |-> e.tp, tm |-> e.tm, tt |-> e.tt, qp |-> e.qp, qm |-> e.qm, rp |-> e.rp, rm |-> e.rm]
Hs(e, i, j) == e.H[6 * (i - 1) + j]
Sym(c) == <<<<c[1], c[2], c[3]>>, <<c[2], c[4], c[5]>>, <<c[3], c[5], c[6]>>>>
Rot3(e) == <<<<e.M[1], e.M[2], e.M[3]>>, <<e.M[4], e.M[5], e.M[6]>>, <<e.M[7], e.M[8], e.M[9]>>>>
(* the weight in the local frame as it shows in the errors: [a][b], times Q, exact to about 2 *)
Weight(e) == [a \in V3 |-> [b \in V3 |-> Hs(e, 3 + a, 3 + b)]]
Prod(A, B, a, b) == LET f(k) == A[a][k] * B[k][b] IN Sum3(f)
ProdAbs(A, B, a, b) == LET f(k) == Abs(A[a][k]) * Abs(B[k][b]) IN Sum3(f)
RowAbs(A, a) == LET f(k) == Abs(A[a][k]) IN Sum3(f)
(* d^2 (R' Ct R + Cs): the summed covariance in the local frame *)
Summed(e) == LET M == Rot3(e) Ct == Sym(e.ct) Cs == Sym(e.cs)
             IN [a \in V3 |-> [b \in V3 |-> LET f(k) == LET g(m) == M[k][a] * Ct[k][m] * M[m][b] IN Sum3(g) IN Sum3(f) + e.d * e.d * Cs[a][b]]]
RightWeight(e, G) ==
  CASE e.fac = "icp" -> \A a, b \in V3 : Close(G[a][b], IF a = b THEN Q ELSE 0, 1)
    [] e.fac = "plane" -> e.axis => \A a, b \in V3 : LET M == Rot3(e)
                                                        f(k) == M[k][a] * e.n[k] * e.n[k] * M[k][b] IN Close(e.d * e.d * G[a][b], Q * Sum3(f), e.d * e.d)
    [] e.fac = "gicp" -> LET S == Summed(e) IN \A a, b \in V3 : Close(Prod(S, G, a, b), IF a = b THEN e.d * e.d * Q ELSE 0, RowAbs(S, a))
GoodSystem(e) ==
  LET er == Err(e) G == Weight(e) P == [a \in V3 |-> Abs(e.p[a])] IN
  /\ e.ret /\ e.asked
  /\ Close(e.e, e.zero, 1)
  /\ \A i, j \in 1..6 : Close(Hs(e, i, j), Hs(e, j, i), 1)
  /\ \A a, b \in V3 : Close(G[a][b], Info(er, a, b), 4)
  /\ \A i \in 4..6 : Close(24 * e.b[i], Grad24(er, i), 48)
  /\ RightWeight(e, G)
  /\ e.far \/ /\ \A i \in V3 : Close(24 * e.b[i], Grad24(er, i), 60)
              /\ \A c, d \in 1..6 : Close(Hs(e, c, d), GN(G, e.p, c, d), 2 + 2 * (1 + P[1] + P[2] + P[3]) * (1 + P[1] + P[2] + P[3]))
One == 1048576
(* seen: <<error, weight>> so far *)
Weighs(k, e, w) ==
  /\ w >= 0 /\ w <= One + 1
  /\ k.kernel = "huber" /\ e + 1 < k.c2 => Close(w, One, 1)
  /\ \A s \in seen : /\ s[1] + 1 < e => w <= s[2] + 2
                     /\ e + 1 < s[1] => s[2] <= w + 2
Kernel == IsEvent("kernel") /\ seen' = {} /\ last' = [k |-> Ev, w |-> -1]
Sys == IsEvent("sys") /\ Holds(GoodSystem(Ev)) /\ UNCHANGED <<seen, last>>
Rob == /\ IsEvent("rob")
       /\ Holds(Ev.ret /\ Ev.rest /\ Close(Ev.lo, Ev.hi, 2) /\ Weighs(last.k, Ev.e, Ev.lo))
       /\ seen' = seen \cup {<<Ev.e, Ev.lo>>} /\ last' = [last EXCEPT !.w = Ev.lo]
RobErr == /\ IsEvent("roberr")
          /\ Holds((Ev.same => Close(Ev.w, last.w, 2)) /\ Weighs(last.k, Ev.e, Ev.w))
          /\ seen' = seen \cup {<<Ev.e, Ev.w>>} /\ UNCHANGED last
Init == l = 1 /\ seen = {} /\ last = [k |-> [kernel |-> "none"], w |-> -1]
Next == Kernel \/ Sys \/ Rob \/ RobErr \/ (End /\ UNCHANGED <<seen, last>>)
Spec == Init /\ [][Next]_<<l, seen, last>>
=============================================================================

------------------------------ MODULE ContainerRule ------------------------------
(* What a point container holds, whatever its memory layout.  Values are codes; 0 is zero and 1 is one.  Codes 100..199 name values a
   float cannot represent; code + 100 is the nearest float.  A state: kind; n: number of points; m: number of covariances (differs from n only for a
   proxy, whose covariances are external); p, q, c: points, normals, covariances (<<>>: unspecified); x: the field of the point type the library does not know. *)
EXTENDS Integers, Sequences
Kinds == 0..9     \* 0 native, 1 Eigen matrix, 2 PointXYZ, 3 PointXYZI, 4 PointNormal, 5 PointXYZINormal, 6 PointCovariance, 7 PointNormalCovariance, 8, 9 proxy of PointXYZ / PointNormal
Native(k) == k = 0
Pcl(k) == k \in 2..7
Proxy(k) == k \in {8, 9}
HasNormals(k) == k \in {0, 4, 5, 7}
HasCovs(k) == k \in {0, 6, 7, 8, 9}
HasExtra(k) == k \in {3, 5}
CanSet(k, a) == CASE a = "p" -> k \notin {1, 8, 9} [] a = "q" -> HasNormals(k) [] a = "c" -> HasCovs(k)
Floats(k, a) == Pcl(k) \/ (Proxy(k) /\ a = "p")
Store(k, a, v) == [i \in DOMAIN v |-> IF v[i] \in 100..199 /\ Floats(k, a) THEN v[i] + 100 ELSE v[i]]
Fill(s, n) == [i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE <<>>]
FillX(s, n) == [i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE 0]
Fresh(k) == [kind |-> k, n |-> 0, m |-> 0, p |-> <<>>, q |-> <<>>, c |-> <<>>, x |-> <<>>]
(* resize of the container interface: every attribute it holds; for a proxy only the covariances are its own *)
ResizeCovs(s, n) == [s EXCEPT !.m = n, !.c = Fill(@, n)]
ResizeCloud(s, n) == [s EXCEPT !.n = n, !.p = Fill(@, n), !.q = Fill(@, n), !.x = FillX(@, n)]
Resize(s, n) == IF Proxy(s.kind) THEN ResizeCovs(s, n) ELSE ResizeCloud(ResizeCovs(s, n), n)
Under(s, n) == IF Proxy(s.kind) THEN ResizeCloud(s, n) ELSE Resize(s, n)       \* the owner changes the underlying cloud
Set(s, a, i, v) == LET w == Store(s.kind, a, v) IN
  CASE a = "p" -> [s EXCEPT !.p[i] = w] [] a = "q" -> [s EXCEPT !.q[i] = w] [] a = "c" -> [s EXCEPT !.c[i] = w]
Extra(s, i, v) == [s EXCEPT !.x[i] = v]
Construct(vs) == [kind |-> 0, n |-> Len(vs), m |-> Len(vs), p |-> vs, q |-> Fill(<<>>, Len(vs)), c |-> Fill(<<>>, Len(vs)), x |-> FillX(<<>>, Len(vs))]
(* what is read back: fourth components as documented, known entries exactly, in the types which initialise their fields also before the first write *)
Point(k, known, r) == /\ (known # <<>> => r = known \o <<1>>)
                      /\ (~Native(k) => r[4] = 1)
Normal(k, known, r) == /\ (known # <<>> => r = known \o <<0>>)
                       /\ (~Native(k) => r[4] = 0)
Cov(k, known, r) == /\ (known # <<>> => r = <<known[1], known[2], known[3], 0, known[4], known[5], known[6], 0, known[7], known[8], known[9], 0, 0, 0, 0, 0>>)
                    /\ (Pcl(k) => \A i \in {4, 8, 12, 13, 14, 15, 16} : r[i] = 0)
Each(P(_, _, _), k, known, r) == Len(r) = Len(known) /\ \A i \in 1..Len(r) : P(k, known[i], r[i])
Dump(s, e) == LET k == s.kind IN
  /\ e.size = s.n
  /\ e.hasp = (IF s.n > 0 THEN 1 ELSE 0)
  /\ Each(Point, k, s.p, e.p)
  /\ HasNormals(k) => e.hasn = (IF s.n > 0 THEN 1 ELSE 0) /\ Each(Normal, k, s.q, e.n)
  /\ HasCovs(k) => e.hasc = (IF s.m > 0 THEN 1 ELSE 0) /\ Each(Cov, k, s.c, e.c)
  /\ HasExtra(k) => e.x = s.x
(* an algorithm is a function of the content: every container with the same content gives the same answer (up to rounding of quantised values) *)
Agrees(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : a[i] - b[i] \in -2..2
================================================================================

------------------------------- MODULE MCSystem -------------------------------
(* Confirms the relation of SystemRule against the definition of the error, over an exhaustive family of small integer factors:
   gradient = J' W r and Info = weight for every pose, pair of points and weight. Rotations by asin(4/5) make everything a
   multiple of 1/25. *)
EXTENDS SystemRule, FiniteSets, TLC
CONSTANTS Coords, Weights, Twist
VARIABLES p, q, R, W
Mat(f(_, _)) == TLCEval([a \in V3 |-> TLCEval([b \in V3 |-> f(a, b)])])
Mul(A, B) == Mat(LAMBDA a, b : LET f(k) == A[a][k] * B[k][b] IN Sum3(f))
App(A, v) == TLCEval([a \in V3 |-> LET f(k) == A[a][k] * v[k] IN Sum3(f)])
Tr(A) == Mat(LAMBDA a, b : A[b][a])
Det(A) == A[1][1] * (A[2][2] * A[3][3] - A[2][3] * A[3][2]) - A[1][2] * (A[2][1] * A[3][3] - A[2][3] * A[3][1]) + A[1][3] * (A[2][1] * A[3][2] - A[2][2] * A[3][1])
Signs == {-1, 1}
Perms == {f \in [V3 -> V3] : \A a, b \in V3 : a # b => f[a] # f[b]}
Cube == {M \in {Mat(LAMBDA a, b : IF f[a] = b THEN s[a] ELSE 0) : f \in Perms, s \in [V3 -> Signs]} : Det(M) = 1}
Points == [V3 -> Coords]
Id == Mat(LAMBDA a, b : IF a = b THEN 1 ELSE 0)
(* rotation about axis i by the angle with 5 sin = s, 5 cos = c, times 5 *)
Rot(i, s, c) == LET a == (i % 3) + 1 b == ((i + 1) % 3) + 1
                IN Mat(LAMBDA x, y : IF x = y THEN (IF x = i THEN 5 ELSE c) ELSE IF x = b /\ y = a THEN s ELSE IF x = a /\ y = b THEN -s ELSE 0)
(* 50 times the error after the local perturbation with rotation Q/5 and translation t *)
E50(Q, t) == LET x == App(R, App(Q, p)) y == App(R, t) r == [a \in V3 |-> 5 * q[a] - x[a] - 5 * y[a]]
                 f(a) == LET g(b) == r[a] * W[a][b] * r[b] IN Sum3(g)
             IN Sum3(f)
Unit(i) == [a \in V3 |-> IF a = i THEN 1 ELSE 0]
Neg(v) == [a \in V3 |-> -v[a]]
Plus(u, v) == [a \in V3 |-> u[a] + v[a]]
I5 == Rot(1, 0, 5)
Zero == [a \in V3 |-> 0]
err(z) == [zero |-> E50(I5, Zero), tp |-> [i \in V3 |-> E50(I5, Unit(i))], tm |-> [i \in V3 |-> E50(I5, Neg(Unit(i)))],
        tt |-> <<E50(I5, Plus(Unit(1), Unit(2))), E50(I5, Plus(Unit(1), Unit(3))), E50(I5, Plus(Unit(2), Unit(3)))>>,
        qp |-> [i \in V3 |-> E50(Rot(i, 5, 0), Zero)], qm |-> [i \in V3 |-> E50(Rot(i, -5, 0), Zero)],
        rp |-> [i \in V3 |-> E50(Rot(i, 4, 3), Zero)], rm |-> [i \in V3 |-> E50(Rot(i, -4, 3), Zero)]]
r0(z) == [a \in V3 |-> q[a] - App(R, p)[a]]
(* world residual derivative: R * Jac *)
JW(z) == ([a \in V3 |-> ([c \in 1..6 |-> LET f(k) == R[a][k] * Jac(p, k, c) IN Sum3(f)])])
Quad(J, c, M, u) == LET f(a) == LET g(b) == J[a][c] * M[a][b] * u[b] IN Sum3(g) IN Sum3(f)
G(z) == Mul(Tr(R), Mul(W, R))
Init == p \in Points /\ q \in Points /\ R \in Cube /\ W \in Weights
Next == UNCHANGED <<p, q, R, W>>
Spec == Init /\ [][Next]_<<p, q, R, W>>
GradientIsExact == \A er \in {err(p)}, J \in {JW(p)}, r \in {r0(p)} : \A i \in 1..6 : Grad24(er, i) = Twist * 50 * 24 * Quad(J, i, W, r)
InfoIsWeight == \A er \in {err(p)}, g \in {G(p)} : \A i, j \in V3 : Info(er, i, j) = 50 * g[i][j]
GNIsInformation == \A g \in {G(p)}, J \in {JW(p)} : \A c, d \in 1..6 : GN(g, p, c, d) = Quad(J, c, W, [b \in V3 |-> J[b][d]])
WQ == {Id, Mat(LAMBDA a, b : IF a # b THEN (IF a + b = 4 THEN 0 ELSE 1) ELSE a + 1)}
CQ == {0, 2}
CT == {-1, 0, 2}
================================================================================

------------------------------- MODULE FeatureRule -------------------------------
(* When is a direction one of least spread of a set of points?  In integers and without computing eigenvalues: let S be the
   scatter matrix and P the projector onto the direction (times Q).  The direction is an eigenvector iff S and P commute; its
   eigenvalue is lam = tr(S P); the two other eigenvalues m1, m2 satisfy m1 + m2 = T - lam and m1 m2 = M2 - lam (T - lam) with the
   trace T and the sum M2 of the principal 2-minors of S, so both are at least lam iff
       M2 - 2 lam T + 3 lam^2 >= 0   and   T >= 3 lam. *)
EXTENDS Integers, Sequences
V3 == 1..3
Abs(x) == IF x < 0 THEN -x ELSE x
Sum3(f(_)) == f(1) + f(2) + f(3)
(* written out, so that TLC evaluates each entry once *)
Mat(f(_, _)) == <<<<f(1, 1), f(1, 2), f(1, 3)>>, <<f(2, 1), f(2, 2), f(2, 3)>>, <<f(3, 1), f(3, 2), f(3, 3)>>>>
RECURSIVE SumSeq(_, _)
SumSeq(s, i) == IF i = 0 THEN 0 ELSE s[i] + SumSeq(s, i - 1)
(* n^2 times the covariance of the points *)
Scatter(ps) == LET n == Len(ps)
                   one(a) == SumSeq([i \in 1..n |-> ps[i][a]], n)
                   ent(a, b) == n * SumSeq([i \in 1..n |-> ps[i][a] * ps[i][b]], n) - one(a) * one(b)
               IN Mat(ent)
Trace3(S) == S[1][1] + S[2][2] + S[3][3]
Minors(S) == S[1][1] * S[2][2] - S[1][2] * S[1][2] + S[1][1] * S[3][3] - S[1][3] * S[1][3] + S[2][2] * S[3][3] - S[2][3] * S[2][3]
(* multiples of S, so that rounding does not matter *)
ScaledUp(S, big) == LET m == IF Trace3(S) = 0 THEN 1 ELSE IF big \div Trace3(S) < 1 THEN 1 ELSE big \div Trace3(S)
                        ent(a, b) == m * S[a][b]
                    IN Mat(ent)
Times(S, P, a, b) == LET f(k) == S[a][k] * P[k][b] IN Sum3(f)
Round(x, q) == (2 * x + q) \div (2 * q)
Lam(S, P, q) == LET f(k) == Times(S, P, k, k) IN Round(Sum3(f), q)
(* tol: how much an entry of P may be off; lt: how much lam may be off *)
IsEigen(S, P, tol) == \A a, b \in V3 : Abs(Times(S, P, a, b) - Times(S, P, b, a)) <= tol * (Abs(S[1][1]) + Abs(S[2][2]) + Abs(S[3][3]))
IsLeast(S, lam, lt) == /\ Minors(S) - 2 * lam * Trace3(S) + 3 * lam * lam >= -lt * (4 * Trace3(S) + 8)
                       /\ Trace3(S) + 4 * lt >= 3 * lam
IsProjector(P, q, tol) == /\ Abs(Trace3(P) - q) <= tol
                          /\ \A a, b \in V3 : Abs(Times(P, P, a, b) - q * P[a][b]) <= tol * q
LeastSpread(S, P, q, tol) == IsEigen(S, P, tol) /\ IsLeast(S, Lam(S, P, q), tol \div 2)
================================================================================

------------------------------- MODULE SystemRule -------------------------------
(* The exact relation between the error of a point factor and its linearization under a local pose perturbation T * exp(d).

   With the pairing and its weight fixed, the residual is r(d) = q - T exp(d) p, and the error e(d) = 1/2 r' W r is quadratic in a
   translation and a trigonometric polynomial of degree two in the angle of a rotation about an axis:
       e(th) = A + B sin + C cos + D 2 sin cos + E (cos^2 - sin^2),   gradient e'(0) = B + 2 D.
   From the odd parts at 90 degrees (o1 = B) and at the angle with sine 4/5 (o2 = 4/5 B + 24/25 D) the gradient is
   (25 o2 - 8 o1) / 12: an exact derivative from finitely many evaluations.  All quantities below are integers (scaled values).

   err is a function of the perturbation:
       zero | tp(i), tm(i): translation by +-1 along axis i | tt(i,j): by +1 along i and j
            | qp(i), qm(i): rotation by +-90 degrees        | rp(i), rm(i): by +-asin(4/5) *)
EXTENDS Integers, Sequences
V3 == 1..3
(* Twice the gradient and twice the entries would need halves: everything is multiplied by 24. *)
Grad24(err, i) ==
  IF i <= 3 THEN LET o1 == err.qp[i] - err.qm[i] o2 == err.rp[i] - err.rm[i] IN 25 * o2 - 8 * o1
  ELSE LET k == i - 3 IN 12 * (err.tp[k] - err.tm[k])
(* The translation block of the information matrix (the weight in the local frame) is the exact second difference. *)
Pair(i, j) == IF {i, j} = {1, 2} THEN 1 ELSE IF {i, j} = {1, 3} THEN 2 ELSE 3
Info(err, i, j) == IF i = j THEN err.tp[i] + err.tm[i] - 2 * err.zero
                   ELSE err.tt[Pair(i, j)] - err.tp[i] - err.tp[j] + err.zero
(* cross product with a coordinate axis: column i of the skew matrix of p is p x axis(i) *)
Skew(p) == <<<<0, -p[3], p[2]>>, <<p[3], 0, -p[1]>>, <<-p[2], p[1], 0>>>>
Sum3(f(_)) == f(1) + f(2) + f(3)
(* d r / d(twist) in the local frame: [ skew(p) , -I ] (the residual moves by -(w x p) - v) *)
Jac(p, a, c) == IF c <= 3 THEN Skew(p)[a][c] ELSE IF a = c - 3 THEN -1 ELSE 0
(* Gauss-Newton information J' G J for the weight G in the local frame *)
GN(G, p, c, d) == LET f(a) == LET g(b) == Jac(p, a, c) * G[a][b] * Jac(p, b, d) IN Sum3(g) IN Sum3(f)
=============================================================================

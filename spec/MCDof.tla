---------------------------------- MODULE MCDof ----------------------------------
(* Design of the restriction: a stiffness L is added on the diagonal of the masked components.  For every small positive definite
   2 x 2 system and every mask reachable by setting masks in any order, the exact (rational) solution of the stiffened system has
   a masked component of at most 1/Tol and active components that differ from the restricted solution by at most 1/Tol.
   Negative controls: a stiffness that is too small; a setter that overwrites the other half of the mask. *)
EXTENDS Integers, Sequences
CONSTANTS L, Tol, Mode
VARIABLES a, c, d, b, rot, trans, want
vars == <<a, c, d, b, rot, trans, want>>
Abs(x) == IF x < 0 THEN -x ELSE x
Init == /\ a \in 1..4 /\ d \in 1..4 /\ c \in -2..2 /\ a * d > c * c /\ b \in [1..2 -> -3..3]
        /\ rot = 1 /\ trans = 1 /\ want = <<1, 1>>
SetRot(m) == rot' = m /\ trans' = (IF Mode = "overwrite" THEN 1 ELSE trans) /\ want' = <<m, want[2]>> /\ UNCHANGED <<a, c, d, b>>
SetTrans(m) == trans' = m /\ rot' = rot /\ want' = <<want[1], m>> /\ UNCHANGED <<a, c, d, b>>
Next == \E m \in {0, 1} : SetRot(m) \/ SetTrans(m)
Spec == Init /\ [][Next]_vars
A == a + L * (1 - rot)
D == d + L * (1 - trans)
Det == A * D - c * c
X1 == -(b[1] * D - c * b[2])
X2 == -(A * b[2] - c * b[1])          \* solution: (X1, X2) / Det
(* |X / Det - Y / E| <= 1 / Tol, with all terms small enough *)
Near(X, E, Y) == Abs(X * E - Y * Det) * Tol <= Det * E
Restricted ==
  CASE want = <<1, 1>> -> Near(X1, a * d - c * c, -(b[1] * d - c * b[2])) /\ Near(X2, a * d - c * c, -(a * b[2] - c * b[1]))
    [] want = <<0, 1>> -> Near(X1, 1, 0) /\ Near(X2, d, -b[2])
    [] want = <<1, 0>> -> Near(X2, 1, 0) /\ Near(X1, a, -b[1])
    [] want = <<0, 0>> -> Near(X1, 1, 0) /\ Near(X2, 1, 0)
================================================================================

-------------------------------- MODULE DofRule --------------------------------
(* A step of an optimizer under a mask: the masked-out components (mask 0) of the twist vanish and the others solve the system
   restricted to them.  H (1..36, integral), b (times 1024), rel (times QS = 65536), tolerances for quantisation and for the
   damping of the optimizers (at most 1/1000). *)
EXTENDS Integers, Sequences
QS == 65536
Abs(x) == IF x < 0 THEN -x ELSE x
Sum6(f(_)) == f(1) + f(2) + f(3) + f(4) + f(5) + f(6)
HAt(H, i, j) == H[6 * (i - 1) + j]
RestrictedStep(mask, H, b, rel) ==
  \A i \in 1..6 :
    IF mask[i] = 0 THEN Abs(rel[i]) <= 4
    ELSE LET row(j) == IF mask[j] = 0 THEN 0 ELSE HAt(H, i, j) * rel[j]
             mag(j) == Abs(HAt(H, i, j))
         IN Abs(rel[i]) < 1000000 /\ Abs(Sum6(row) + 64 * b[i]) <= 4 * Sum6(mag) + Abs(rel[i]) \div 900
Masks == [1..3 -> {0, 1}]
Ones == <<1, 1, 1>>
================================================================================

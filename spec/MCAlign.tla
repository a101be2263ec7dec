--------------------------------- MODULE MCAlign ---------------------------------
(* Design of the iteration in exact arithmetic, for translations of small planar point sets: pair every source point with its
   nearest target point, move by the mean difference, repeat.  All targets, all displacements.  Displacements are multiples of
   1 / Num; target points are four units apart.  Inside the basin (displacement below half the spacing) the first step recovers the motion, for every way of
   breaking ties, and it stays recovered; Wide is the negative control without the basin. *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
CONSTANTS Ext, Num, Shift, Wide
VARIABLES target, off, n      \* off: Num * (current translation minus true translation), componentwise
vars == <<target, off, n>>
Cell == (0..Ext) \X (0..Ext)
S(p) == <<4 * p[1], 4 * p[2]>>
D2(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])
Init == /\ target \in {{S(p) : p \in P} : P \in kSubset(Num, Cell)}
        /\ off \in (-Shift..Shift) \X (-Shift..Shift) /\ n = 0
        /\ (Wide \/ off[1] * off[1] + off[2] * off[2] < 4 * Num * Num)
(* a source point sits at its counterpart q displaced by off / Num *)
Near(q) == {r \in target : \A s \in target : D2(<<Num * q[1] + off[1], Num * q[2] + off[2]>>, <<Num * r[1], Num * r[2]>>)
                                              <= D2(<<Num * q[1] + off[1], Num * q[2] + off[2]>>, <<Num * s[1], Num * s[2]>>)}
Step == /\ n < 3 /\ n' = n + 1 /\ UNCHANGED target
        /\ \E f \in [target -> target] :
             /\ \A q \in target : f[q] \in Near(q)
             /\ off' = <<MapThenSumSet(LAMBDA q : f[q][1] - q[1], target), MapThenSumSet(LAMBDA q : f[q][2] - q[2], target)>>
Spec == Init /\ [][Step]_vars
Recovered == n >= 1 => off = <<0, 0>>
================================================================================

--------------------------------- MODULE GenDegen --------------------------------
(* Every operation on every degenerate input: op, number and shape of points, k, backend. *)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils, TLC
CONSTANTS Ops, Ns, Shapes, Ks, Backends
VARIABLE x
All == {[o |-> o, n |-> n, s |-> s, k |-> k, b |-> b] : o \in Ops, n \in Ns, s \in Shapes, k \in Ks, b \in Backends}
Write == LET S == SetToSeq(All) IN ndJsonSerialize(IOEnv.GEN, S)
Init == x = 0 /\ Write
Next == FALSE /\ x' = x
Spec == Init /\ [][Next]_x
================================================================================

---------------------------------- MODULE GenPly ---------------------------------
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils, TLC
CONSTANTS MaxN, MaxS
VARIABLE x
Kinds == {"pts", "ply", "upper", "comment", "missing", "double", "face", "int", "nofloat"}
All == {[kind |-> k, n |-> n, s |-> s, v |-> v] : k \in Kinds, n \in (0..MaxN) \cup {257, 1000}, s \in 3..MaxS, v \in 0..2}
Write == LET S == SetToSeq({r \in All : r.kind = "pts" => r.s = 4}) IN ndJsonSerialize(IOEnv.GEN, S)
Init == x = 0 /\ Write
Next == FALSE /\ x' = x
Spec == Init /\ [][Next]_x
================================================================================

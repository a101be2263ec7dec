-------------------------------- MODULE GenKeys --------------------------------
(* Enumerates every key sequence of length 0..MaxLen over 0..MaxKey. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
CONSTANTS MaxLen, MaxKey
VARIABLE x
All == UNION {[1..n -> 0..MaxKey] : n \in 0..MaxLen}
Write == LET S == SetToSeq(All) IN ndJsonSerialize(IOEnv.GEN, [i \in 1..Len(S) |-> [keys |-> S[i]]])
Init == x = 0 /\ Write
Next == FALSE /\ x' = x
Spec == Init /\ [][Next]_x
================================================================================

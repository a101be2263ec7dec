-------------------------------- MODULE GenHist --------------------------------
(* Enumerates every history of at most MaxLen operations over an alphabet of NumOps operations, with every choice of the initial
   settings: [h, c, cap] and the operations as small integers (decoded by the driver). *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
CONSTANTS MaxLen, NumOps, Horizons, Cycles, Caps
VARIABLE x
All == {[h |-> h, c |-> c, cap |-> k, ops |-> o] : h \in Horizons, c \in Cycles, k \in Caps, o \in [1..MaxLen -> 1..NumOps]}
Write == LET S == SetToSeq(All) IN ndJsonSerialize(IOEnv.GEN, S)
Init == x = 0 /\ Write
Next == FALSE /\ x' = x
Spec == Init /\ [][Next]_x
================================================================================

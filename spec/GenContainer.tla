------------------------------- MODULE GenContainer ------------------------------
(* Every kind of container and every sequence of Len operations (operation codes; the driver draws the values). *)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils, TLC
CONSTANT Depth
VARIABLE x
Ops == 0..19     \* 0..2 resize to that, 3..5 underlying resize, 6..17 set: attribute x entry x via, 18..19 extra field
All == {[kind |-> k, ops |-> o] : k \in 0..9, o \in [1..Depth -> Ops]}
Write == LET S == SetToSeq(All) IN ndJsonSerialize(IOEnv.GEN, S)
Init == x = 0 /\ Write
Next == FALSE /\ x' = x
Spec == Init /\ [][Next]_x
================================================================================

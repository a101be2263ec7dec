-------------------------------- MODULE GenHelper --------------------------------
(* Every overload and registration type with every set of at most MaxDev settings away from their defaults. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
CONSTANTS MaxDev
VARIABLE x
Fields == 0..8
Mask(S) == LET RECURSIVE m(_)
               m(T) == IF T = {} THEN 0 ELSE LET f == CHOOSE f \in T : TRUE IN 2^f + m(T \ {f})
           IN m(S)
Sets == {S \in SUBSET Fields : Cardinality(S) <= MaxDev}
All == {[fn |-> f, type |-> t, dev |-> Mask(S)] : f \in 0..5, t \in 0..3, S \in Sets}
Valid == {r \in All : r.fn = 1 => r.type = 3}
Write == LET S == SetToSeq(Valid) IN ndJsonSerialize(IOEnv.GEN, S)
Init == x = 0 /\ Write
Next == FALSE /\ x' = x
Spec == Init /\ [][Next]_x
================================================================================

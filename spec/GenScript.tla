------------------------------- MODULE GenScript -------------------------------
(* Enumerates optimizer scripts: limits, the outcomes of the successive trials and the kinds of the successive steps. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
CONSTANTS Limits, NumTrials, NumOutcomes, NumSteps, NumKinds
VARIABLE x
All == {[lim |-> m, out |-> o, kind |-> k] : m \in Limits, o \in [1..NumTrials -> 0..NumOutcomes - 1], k \in [1..NumSteps -> 0..NumKinds - 1]}
Write == LET S == SetToSeq(All) IN ndJsonSerialize(IOEnv.GEN, S)
Init == x = 0 /\ Write
Next == FALSE /\ x' = x
Spec == Init /\ [][Next]_x
LimQ == {<<3, 2>>, <<2, 3>>, <<2, 0>>, <<0, 2>>, <<1, 1>>}
LimG == {<<0, 1>>, <<1, 1>>, <<2, 1>>, <<4, 1>>}
================================================================================

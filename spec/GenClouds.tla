------------------------------ MODULE GenClouds ------------------------------
(* Enumerates every point cloud of at most MaxLen points over a small set of lattice positions (all multiplicities, all orders)
   for replay into the code. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
CONSTANTS MaxLen, Positions
VARIABLE x
Clouds == UNION {[1..n -> Positions] : n \in 0..MaxLen}
Write == LET S == SetToSeq(Clouds) IN ndJsonSerialize(IOEnv.GEN, [i \in 1..Len(S) |-> [pts |-> S[i]]])
Init == x = 0 /\ Write
Next == FALSE /\ x' = x
Spec == Init /\ [][Next]_x
Pos6 == {<<0,0,0>>, <<1,0,0>>, <<0,2,0>>, <<0,0,3>>, <<1,1,1>>, <<-2,1,0>>}
Pos9 == Pos6 \cup {<<2,-1,-1>>, <<-1,-1,2>>, <<3,3,0>>}
(* voxels for the downsampling filters: neighbours, the extreme voxels and ones just outside the range *)
PosVox == {<<0,0,0>>, <<-1,0,0>>, <<0,1,0>>, <<1048575,0,-1048576>>, <<0,1048576,0>>, <<0,0,-1048577>>}
=============================================================================

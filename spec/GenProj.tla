--------------------------------- MODULE GenProj ---------------------------------
(* Every image size, query cell, window and border mode up to the bounds. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
CONSTANTS MaxW, MaxH, MaxWin
VARIABLE x
All == {[w |-> w, h |-> h, u |-> u, v |-> v, wh |-> a, wv |-> b, m |-> m] :
          w \in 1..MaxW, h \in 1..MaxH, u \in 0..MaxW-1, v \in 0..MaxH-1, a \in 0..MaxWin, b \in 0..MaxH, m \in 0..3}
Valid == {r \in All : r.u < r.w /\ r.v < r.h}
Write == LET S == SetToSeq(Valid) IN ndJsonSerialize(IOEnv.GEN, S)
Init == x = 0 /\ Write
Next == FALSE /\ x' = x
Spec == Init /\ [][Next]_x
================================================================================

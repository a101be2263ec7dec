------------------------------- MODULE SortTrace -------------------------------
(* sort : keys (of the ids 0..n-1, as limbs, in comparison order), out (ids after the call), intact (payloads unchanged) *)
EXTENDS TraceBase, SortContract
Sort == IsEvent("sort") /\ Holds(Ev.intact /\ SortedPermutation(Ev.keys, Ev.out))
Init == l = 1
Next == Sort \/ End
Spec == Init /\ [][Next]_l
================================================================================

------------------------------- MODULE SharedRule -------------------------------
(* Read-only operations on a shared object are functions of the object and the request: whatever else runs at the same time, a
   caller gets the answer recorded when the request was made alone, and the object stays as it was. *)
EXTENDS Integers, Sequences
Alone(base, k) == base[k]
Consistent(base, k, ans) == k \in 1..Len(base) /\ ans = Alone(base, k)
================================================================================

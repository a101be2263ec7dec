----------------------------- MODULE SortContract -----------------------------
(* The contract of every sort: the result is a permutation of the ids 0..n-1 whose keys do not decrease.
   A key is a sequence of limbs, most significant first, so that 64-bit keys can be compared. *)
EXTENDS Integers, Sequences, FiniteSets
KeyLess(a, b) == \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..i-1 : a[j] = b[j]
IsSorted(keys, out) == \A i \in 1..Len(out)-1 : ~KeyLess(keys[out[i + 1] + 1], keys[out[i] + 1])
IsPerm(n, out) == Len(out) = n /\ {out[i] : i \in 1..Len(out)} = 0..n-1
SortedPermutation(keys, out) == IsPerm(Len(keys), out) /\ IsSorted(keys, out)
================================================================================

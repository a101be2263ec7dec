-------------------------------- MODULE Sampling --------------------------------
(* Random sampling without replacement: the contract, and the design (selection sampling: one pass over the input, each element is
   taken or skipped).  With replacement (Replace = TRUE, negative control) the same element can be taken twice. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Requests, Replace
VARIABLES req, i, picked
vars == <<req, i, picked>>
Take == IF req < N THEN req ELSE N

Init == req \in Requests /\ i = 0 /\ picked = <<>>
TakeIt == Len(picked) < Take /\ picked' = Append(picked, i + 1) /\ i' = i + 1
SkipIt == N - i > Take - Len(picked) /\ i' = i + 1 /\ UNCHANGED picked
Again == Replace /\ Len(picked) < Take /\ i > 0 /\ picked' = Append(picked, i) /\ UNCHANGED i
Next == i < N /\ UNCHANGED req /\ (TakeIt \/ SkipIt \/ Again)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Picks == {picked[j] : j \in DOMAIN picked}
Distinct == Cardinality(Picks) = Len(picked)
Feasible == Take - Len(picked) <= N - i
Finally == i = N => Len(picked) = Take
(* Every subset of the requested size can still be drawn as long as the picks agree with it: the step it needs is enabled. *)
AllSubsets == \A S \in SUBSET (1..N) :
  (Cardinality(S) = Take /\ S \cap (1..i) = Picks /\ i < N) => IF i + 1 \in S THEN ENABLED TakeIt ELSE ENABLED SkipIt
Terminates == <>(i = N)
=============================================================================

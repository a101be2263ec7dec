------------------------------- MODULE VoxelGrid -------------------------------
(* Design of the parallel voxel grid: points sorted by voxel key (equal keys in any order, invalid keys last), cut into blocks; every
   block sums runs of equal keys, reserves output slots with one atomic addition and writes its means there.
   One worker per block, all interleavings.  BlockSize >= N is the serial algorithm.
   AtomicReserve = FALSE (read, then write the counter) and SkipInvalid = FALSE (the original defect: out-of-range points averaged
   into the last run) are negative controls. *)
EXTENDS VoxelSum, TLC
CONSTANTS N, Keys, BlockSize, AtomicReserve, SkipInvalid
Invalid == 99

VARIABLES key, perm, slots, next, wk
vars == <<key, perm, slots, next, wk>>
Blocks == {b \in 0..N-1 : b % BlockSize = 0}
BEnd(b) == IF b + BlockSize < N THEN b + BlockSize ELSE N
K(i) == key[perm[i + 1]]        \* key at sorted position i (0-based)

Sorted(p) == \A i \in 1..N-1 : key[p[i]] <= key[p[i + 1]]
Init ==
  /\ key \in [1..N -> Keys \cup {Invalid}]
  /\ perm \in {p \in Permutations(1..N) : Sorted(p)}
  /\ slots = [i \in 0..N-1 |-> {}]
  /\ next = 0
  /\ wk = [b \in Blocks |-> [st |-> "sum", parts |-> <<>>, base |-> 0, done |-> 0]]

(* the runs of one block, as sets of point ids *)
RECURSIVE Runs(_, _, _, _)
Runs(i, e, cur, acc) ==
  IF i = e THEN Append(acc, cur)
  ELSE IF SkipInvalid /\ K(i) = Invalid THEN Runs(i + 1, e, cur, acc)
  ELSE IF K(i) # K(i - 1) THEN Runs(i + 1, e, {perm[i + 1]}, Append(acc, cur))
  ELSE Runs(i + 1, e, cur \cup {perm[i + 1]}, acc)

Sum(b) ==
  /\ wk[b].st = "sum"
  /\ wk' = [wk EXCEPT ![b] = IF SkipInvalid /\ K(b) = Invalid THEN [@ EXCEPT !.st = "done"]
                             ELSE [@ EXCEPT !.st = "reserve", !.parts = Runs(b + 1, BEnd(b), {perm[b + 1]}, <<>>)]]
  /\ UNCHANGED <<key, perm, slots, next>>
Reserve(b) ==
  /\ AtomicReserve /\ wk[b].st = "reserve"
  /\ next' = next + Len(wk[b].parts)
  /\ wk' = [wk EXCEPT ![b].st = "write", ![b].base = next]
  /\ UNCHANGED <<key, perm, slots>>
ReadCounter(b) ==
  /\ ~AtomicReserve /\ wk[b].st = "reserve"
  /\ wk' = [wk EXCEPT ![b].st = "bump", ![b].base = next]
  /\ UNCHANGED <<key, perm, slots, next>>
BumpCounter(b) ==
  /\ wk[b].st = "bump"
  /\ next' = wk[b].base + Len(wk[b].parts)
  /\ wk' = [wk EXCEPT ![b].st = "write"]
  /\ UNCHANGED <<key, perm, slots>>
Write(b) ==
  /\ wk[b].st = "write"
  /\ IF wk[b].done = Len(wk[b].parts) THEN wk' = [wk EXCEPT ![b].st = "done"] /\ UNCHANGED slots
     ELSE /\ slots' = [slots EXCEPT ![wk[b].base + wk[b].done] = wk[b].parts[wk[b].done + 1]]
          /\ wk' = [wk EXCEPT ![b].done = @ + 1]
  /\ UNCHANGED <<key, perm, next>>

Next == \E b \in Blocks : Sum(b) \/ Reserve(b) \/ ReadCounter(b) \/ BumpCounter(b) \/ Write(b)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == \A b \in Blocks : wk[b].st = "done"
(* Point i of voxel k has local offset <<i, i*i, 1>>; the contract is evaluated on the decoded result. *)
Local(i) == <<i, i * i, 1>>
SeqOfSet(S) == CHOOSE s \in [1..Cardinality(S) -> S] : {s[i] : i \in 1..Cardinality(S)} = S
PartOf(S) == LET s == SeqOfSet(S) L == [i \in 1..Len(s) |-> Local(s[i])]
             IN <<Len(s), SumLane(L, 1), SumLane(L, 2), SumLane(L, 3)>>
Occupied == {k \in Keys : \E i \in 1..N : key[i] = k}
OutSets == [j \in 1..next |-> slots[j - 1]]
OutOf(k) == SelectSeq(OutSets, LAMBDA S : S # {} /\ \A i \in S : key[i] = k)
CellSeq == [j \in 1..Cardinality(Occupied) |->
              LET ks == CHOOSE s \in [1..Cardinality(Occupied) -> Occupied] : \A a, b \in 1..Cardinality(Occupied) : a < b => s[a] < s[b]
                  k == ks[j]
              IN [k |-> k, pts |-> {i \in 1..N : key[i] = k}]]
CellsIn == [j \in 1..Len(CellSeq) |-> [v |-> <<CellSeq[j].k, 0, 0>>, l |-> LET s == SeqOfSet(CellSeq[j].pts) IN [i \in 1..Len(s) |-> Local(s[i])]]]
Outs == [j \in 1..Len(CellSeq) |-> [v |-> <<CellSeq[j].k, 0, 0>>, parts |-> LET o == OutOf(CellSeq[j].k) IN [i \in 1..Len(o) |-> PartOf(o[i])]]]

EveryOutputInOneVoxel == Done => \A j \in 1..next : OutSets[j] # {} /\ \E k \in Keys : \A i \in OutSets[j] : key[i] = k
Disjoint == Done => \A a, b \in 1..next : a # b => OutSets[a] \cap OutSets[b] = {}
Contract == Done => Downsampled(CellsIn, Outs, 1000 * (Cardinality(Blocks) - 1), 1)
Serial == Cardinality(Blocks) = 1 => (Done => next = Cardinality(Occupied))
Terminates == <>Done
===============================================================================

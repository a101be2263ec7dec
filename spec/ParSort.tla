-------------------------------- MODULE ParSort --------------------------------
(* Designs of the parallel sorts, all task interleavings.
   Algo = "merge": split, sort both halves as tasks, wait, merge.            WaitChildren = FALSE is a negative control.
   Algo = "quick": partition into < pivot, = pivot, > pivot; sort the outer parts as tasks, nobody waits but the enclosing region.
   Algo = "radix": per digit: histogram per tile | offsets per bin | scatter per tile, with a barrier after each phase.
                   Barriers = FALSE is a negative control.
   Ranges of at most Cutoff elements are sorted at once.  Items are ids 0..N-1 with keys Key. *)
EXTENDS SortContract, TLC
CONSTANTS N, MaxKey, Algo, Cutoff, WaitChildren, Tile, Bits, Barriers

VARIABLES key, arr, tasks, buf, hist, offs, phase, ph
vars == <<key, arr, tasks, buf, hist, offs, phase, ph>>
\* tasks: set of records (merge / quick); phase, ph, hist, offs, buf: radix

Keys1 == [i \in 1..N |-> <<key[i - 1]>>]
Seg(f, e) == f..(e-1)
AsSeq(a) == [i \in 1..N |-> a[i - 1]]
IdArr == [i \in 0..N-1 |-> i]
T(f, e, s) == [first |-> f, last |-> e, st |-> s]

NumBins == 2 ^ Bits
NumTiles == (N + Tile - 1) \div Tile
Steps == CHOOSE s \in 1..8 : NumBins ^ s > MaxKey /\ (s = 1 \/ NumBins ^ (s - 1) <= MaxKey)
Digit(x, s) == (key[x] \div (NumBins ^ s)) % NumBins
TileItems(t) == {i \in 0..N-1 : i \div Tile = t}

Init ==
  /\ key \in [0..N-1 -> 0..MaxKey]
  /\ arr = IdArr
  /\ tasks = IF Algo = "radix" THEN {} ELSE {T(0, N, "new")}
  /\ buf = IdArr
  /\ hist = [t \in 0..NumTiles-1 |-> [b \in 0..NumBins-1 |-> 0]]
  /\ offs = [b \in 0..NumBins-1 |-> [t \in 0..NumTiles-1 |-> 0]]
  /\ phase = 0                                      \* current digit
  /\ ph = [t \in 0..NumTiles-1 |-> "hist"]          \* progress of every tile worker

Radix == UNCHANGED tasks
NoRadix == UNCHANGED <<buf, hist, offs, phase, ph>>

SortRange(a, f, e) ==     \* the arrays that agree with a outside [f,e) and are a sorted rearrangement inside
  {b \in {[i \in 0..N-1 |-> IF i \in Seg(f, e) THEN a[p[i]] ELSE a[i]] : p \in Permutations(Seg(f, e))} :
     \A i \in Seg(f, e - 1) : key[b[i]] <= key[b[i + 1]]}

Small(t) ==
  /\ t.st = "new" /\ t.last - t.first <= Cutoff
  /\ \E b \in SortRange(arr, t.first, t.last) : arr' = b
  /\ tasks' = (tasks \ {t}) \cup {[t EXCEPT !.st = "done"]}
  /\ UNCHANGED key /\ NoRadix

MergeSplit(t) ==
  /\ Algo = "merge" /\ t.st = "new" /\ t.last - t.first > Cutoff
  /\ LET c == t.first + (t.last - t.first) \div 2 IN
     tasks' = (tasks \ {t}) \cup {[t EXCEPT !.st = "wait"], T(t.first, c, "new"), T(c, t.last, "new")}
  /\ UNCHANGED <<key, arr>> /\ NoRadix
(* inplace_merge interleaves the two halves keeping their internal order *)
Interleave(a, f, c, e) ==
  {b \in {[i \in 0..N-1 |-> IF i \in Seg(f, e) THEN a[p[i]] ELSE a[i]] : p \in Permutations(Seg(f, e))} :
     /\ \A i, j \in Seg(f, c) : i < j => \E x, y \in Seg(f, e) : x < y /\ b[x] = a[i] /\ b[y] = a[j]
     /\ \A i, j \in Seg(c, e) : i < j => \E x, y \in Seg(f, e) : x < y /\ b[x] = a[i] /\ b[y] = a[j]
     /\ (\A i \in Seg(f, c-1) : key[a[i]] <= key[a[i+1]]) /\ (\A i \in Seg(c, e-1) : key[a[i]] <= key[a[i+1]])
          => \A i \in Seg(f, e - 1) : key[b[i]] <= key[b[i + 1]]}
Merge(t) ==
  LET c == t.first + (t.last - t.first) \div 2 IN
  /\ Algo = "merge" /\ t.st = "wait"
  /\ WaitChildren => T(t.first, c, "done") \in tasks /\ T(c, t.last, "done") \in tasks
  /\ \E b \in Interleave(arr, t.first, c, t.last) : arr' = b
  /\ tasks' = (tasks \ {t}) \cup {[t EXCEPT !.st = "done"]}
  /\ UNCHANGED key /\ NoRadix

Partition(t) ==
  /\ Algo = "quick" /\ t.st = "new" /\ t.last - t.first > Cutoff
  /\ \E pv \in {key[arr[i]] : i \in Seg(t.first, t.last)} : \E p \in Permutations(Seg(t.first, t.last)) :
       LET b == [i \in 0..N-1 |-> IF i \in Seg(t.first, t.last) THEN arr[p[i]] ELSE arr[i]]
           m1 == t.first + Cardinality({i \in Seg(t.first, t.last) : key[arr[i]] < pv})
           m2 == m1 + Cardinality({i \in Seg(t.first, t.last) : key[arr[i]] = pv})
       IN /\ \A i \in Seg(t.first, m1) : key[b[i]] < pv
          /\ \A i \in Seg(m1, m2) : key[b[i]] = pv
          /\ \A i \in Seg(m2, t.last) : key[b[i]] > pv
          /\ arr' = b
          /\ tasks' = (tasks \ {t}) \cup {[t EXCEPT !.st = "done"], T(t.first, m1, IF m1 = t.first THEN "done" ELSE "new"),
                                          T(m2, t.last, IF m2 = t.last THEN "done" ELSE "new")}
  /\ UNCHANGED key /\ NoRadix

(* radix *)
At(t, p) == ph[t] = p
AllAt(ps) == \A t \in 0..NumTiles-1 : ph[t] \in ps
Histogram(t) ==
  /\ At(t, "hist")
  /\ hist' = [hist EXCEPT ![t] = [b \in 0..NumBins-1 |-> Cardinality({i \in TileItems(t) : Digit(arr[i], phase) = b})]]
  /\ ph' = [ph EXCEPT ![t] = "offs"]
  /\ UNCHANGED <<key, arr, buf, offs, phase>> /\ Radix
RECURSIVE Tot(_)
Tot(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN hist[x[1]][x[2]] + Tot(S \ {x})
Offset(b, t) == Tot({<<u, c>> \in (0..NumTiles-1) \X (0..NumBins-1) : c < b \/ (c = b /\ u < t)})
(* the worker of tile t computes the offsets of its tile (the code splits this work by bins; the values are the same) *)
Offsets(t) ==
  /\ At(t, "offs")
  /\ Barriers => AllAt({"offs", "scatter"})
  /\ offs' = [b \in 0..NumBins-1 |-> [offs[b] EXCEPT ![t] = Offset(b, t)]]
  /\ ph' = [ph EXCEPT ![t] = "scatter"]
  /\ UNCHANGED <<key, arr, buf, hist, phase>> /\ Radix
Scatter(t) ==
  /\ At(t, "scatter")
  /\ Barriers => AllAt({"scatter", "swap"})
  /\ LET rank(i) == Cardinality({j \in TileItems(t) : j < i /\ Digit(arr[j], phase) = Digit(arr[i], phase)})
         pos(i) == offs[Digit(arr[i], phase)][t] + rank(i)
     IN buf' = [x \in 0..N-1 |-> IF \E i \in TileItems(t) : pos(i) = x THEN arr[CHOOSE i \in TileItems(t) : pos(i) = x] ELSE buf[x]]
  /\ ph' = [ph EXCEPT ![t] = "swap"]
  /\ UNCHANGED <<key, arr, hist, offs, phase>> /\ Radix
Swap ==
  /\ Algo = "radix" /\ AllAt({"swap"}) /\ phase < Steps
  /\ arr' = buf /\ buf' = arr /\ phase' = phase + 1
  /\ ph' = [t \in 0..NumTiles-1 |-> IF phase + 1 = Steps THEN "end" ELSE "hist"]
  /\ UNCHANGED <<key, hist, offs>> /\ Radix

Next == \/ \E t \in tasks : Small(t) \/ MergeSplit(t) \/ Merge(t) \/ Partition(t)
        \/ Algo = "radix" /\ \E t \in 0..NumTiles-1 : Histogram(t) \/ Offsets(t) \/ Scatter(t)
        \/ Swap
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == IF Algo = "radix" THEN phase = Steps ELSE \A t \in tasks : t.st = "done"
Sorted == Done => SortedPermutation(Keys1, AsSeq(arr))
Active == {t \in tasks : t.st = "new"}
DisjointRanges == \A s, t \in Active : s # t => Seg(s.first, s.last) \cap Seg(t.first, t.last) = {}
Terminates == <>Done
================================================================================

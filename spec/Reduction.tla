-------------------------------- MODULE Reduction --------------------------------
(* Design of the reductions.  Factors 1..N; Acc is the set that accepts.  An accumulator is modelled as the sequence of the
   factors added to it, so that a lost, duplicated or misplaced contribution is visible.

   Mode "omp": workers take chunks of the iteration space; a worker adds to its own slot in two steps (read, write); the
   slots are summed after the join.   "shared" (negative control): all workers use one slot.
   Mode "tbb": a body owns a range; it may be split (the new body starts empty) or run on a prefix of its range, several
   times; a finished right neighbour is joined into the body it was split from.  "reset" (negative control): a run starts
   from an empty accumulator.  "carry" (negative control): the new body of a split copies the accumulator. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, T, Mode
VARIABLES Acc, next, work, slot, tmp, bodies
vars == <<Acc, next, work, slot, tmp, bodies>>
Omp == Mode \in {"omp", "shared"}
Slot(t) == IF Mode = "shared" THEN 1 ELSE t
Filter(s) == SelectSeq(s, LAMBDA i : i \in Acc)
Iota(a, b) == [i \in 1..(b - a) |-> a + i - 1]   \* a .. b-1

Init == /\ Acc \in SUBSET (1..N)
        /\ next = 1 /\ work = [t \in 1..T |-> <<>>] /\ slot = [t \in 1..T |-> <<>>] /\ tmp = [t \in 1..T |-> <<-1>>]
        /\ bodies = IF Omp THEN <<>> ELSE <<[pos |-> 1, hi |-> N + 1, acc |-> <<>>, kids |-> <<>>, joined |-> FALSE]>>

Grab(t) == /\ Omp /\ work[t] = <<>> /\ next <= N
           /\ \E c \in 1..(N + 1 - next) : work' = [work EXCEPT ![t] = Iota(next, next + c)] /\ next' = next + c
           /\ UNCHANGED <<Acc, slot, tmp, bodies>>
(* evaluate the factor; read the slot *)
Read(t) == /\ Omp /\ work[t] # <<>> /\ tmp[t] = <<-1>>
           /\ IF Head(work[t]) \in Acc THEN tmp' = [tmp EXCEPT ![t] = slot[Slot(t)]] /\ UNCHANGED work
              ELSE work' = [work EXCEPT ![t] = Tail(@)] /\ UNCHANGED tmp
           /\ UNCHANGED <<Acc, next, slot, bodies>>
Write(t) == /\ Omp /\ tmp[t] # <<-1>>
            /\ slot' = [slot EXCEPT ![Slot(t)] = Append(tmp[t], Head(work[t]))]
            /\ tmp' = [tmp EXCEPT ![t] = <<-1>>] /\ work' = [work EXCEPT ![t] = Tail(@)]
            /\ UNCHANGED <<Acc, next, bodies>>

Free(b) == ~bodies[b].joined
Run(b) == /\ ~Omp /\ Free(b) /\ bodies[b].kids = <<>>
          /\ \E c \in 1..(bodies[b].hi - bodies[b].pos) :
               bodies' = [bodies EXCEPT ![b].pos = @ + c,
                                        ![b].acc = (IF Mode = "reset" THEN <<>> ELSE @) \o Filter(Iota(bodies[b].pos, bodies[b].pos + c))]
          /\ UNCHANGED <<Acc, next, work, slot, tmp>>
(* The range of b is halved somewhere; b keeps the left part and can be run before and after the split. *)
SplitB(b) == /\ ~Omp /\ Free(b) /\ bodies[b].hi - bodies[b].pos >= 2 /\ Len(bodies) <= T
             /\ \E m \in (bodies[b].pos + 1)..(bodies[b].hi - 1) :
                  bodies' = Append([bodies EXCEPT ![b].hi = m, ![b].kids = Append(@, Len(bodies) + 1)],
                                   [pos |-> m, hi |-> bodies[b].hi, acc |-> IF Mode = "carry" THEN bodies[b].acc ELSE <<>>, kids |-> <<>>, joined |-> FALSE])
             /\ UNCHANGED <<Acc, next, work, slot, tmp>>
RunLeft(b) == /\ ~Omp /\ Free(b) /\ bodies[b].kids # <<>>
              /\ \E c \in 1..(bodies[b].hi - bodies[b].pos) :
                   bodies' = [bodies EXCEPT ![b].pos = @ + c,
                                            ![b].acc = (IF Mode = "reset" THEN <<>> ELSE @) \o Filter(Iota(bodies[b].pos, bodies[b].pos + c))]
              /\ UNCHANGED <<Acc, next, work, slot, tmp>>
Finished(b) == bodies[b].pos = bodies[b].hi
Join(b) == /\ ~Omp /\ Free(b) /\ Finished(b) /\ bodies[b].kids # <<>>
           /\ LET k == bodies[b].kids[Len(bodies[b].kids)]
              IN /\ Finished(k) /\ bodies[k].kids = <<>>
                 /\ bodies' = [bodies EXCEPT ![b].acc = @ \o bodies[k].acc, ![b].kids = SubSeq(@, 1, Len(@) - 1), ![k].joined = TRUE]
           /\ UNCHANGED <<Acc, next, work, slot, tmp>>

Next == (\E t \in 1..T : Grab(t) \/ Read(t) \/ Write(t)) \/ (\E b \in DOMAIN bodies : Run(b) \/ SplitB(b) \/ RunLeft(b) \/ Join(b))
Spec == Init /\ [][Next]_vars

RECURSIVE Cat(_)
Cat(t) == IF t = 0 THEN <<>> ELSE Cat(t - 1) \o slot[t]
Over == IF Omp THEN next > N /\ \A t \in 1..T : work[t] = <<>>
        ELSE Finished(1) /\ bodies[1].kids = <<>>
Result == IF Omp THEN Cat(T) ELSE bodies[1].acc
Counts(s, i) == Cardinality({j \in DOMAIN s : s[j] = i})
(* every accepted factor once, nothing else; a tree reduction even keeps the order *)
Conserved == Over => /\ \A i \in 1..N : Counts(Result, i) = IF i \in Acc THEN 1 ELSE 0
                     /\ ~Omp => Result = Filter(Iota(1, N + 1))
=============================================================================

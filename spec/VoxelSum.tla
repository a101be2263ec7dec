------------------------------- MODULE VoxelSum -------------------------------
(* The contract of voxel-grid downsampling, serial and parallel.
   The input is given as cells (one per occupied voxel, with the local offsets of its points on an integer sub-lattice); the output as
   the parts found in each voxel, each part being the mean of "count" points, written as <<count, sumx, sumy, sumz>> in lowest terms. *)
EXTENDS Integers, Sequences, FiniteSets

CoordMin == -1048576
CoordMax == 1048575
InRange(v) == \A i \in 1..3 : v[i] >= CoordMin /\ v[i] <= CoordMax

RECURSIVE SumBetween(_, _, _, _)
SumBetween(s, a, lo, hi) ==   \* by halves: recursion stays shallow for long sequences
  IF lo > hi THEN 0 ELSE IF lo = hi THEN s[lo][a]
  ELSE LET mid == (lo + hi) \div 2 IN SumBetween(s, a, lo, mid) + SumBetween(s, a, mid + 1, hi)
SumLane(s, a) == SumBetween(s, a, 1, Len(s))

(* A mean is a fraction: a part in lowest terms stands for any multiple of itself.  Is there a choice of multiples with which the
   parts account for m points of total offset S? *)
RECURSIVE Accounts(_, _, _, _)
Accounts(parts, i, m, S) ==
  LET p == parts[i] IN
  IF i = Len(parts)
  THEN LET k == m \div p[1] IN k >= 1 /\ k * p[1] = m /\ \A a \in 1..3 : k * p[a + 1] = S[a]
  ELSE \E k \in 1..(m \div p[1]) :
         Accounts(parts, i + 1, m - k * p[1], <<S[1] - k * p[2], S[2] - k * p[3], S[3] - k * p[4]>>)

(* parts are means of disjoint groups that together are all points of the cell *)
Conserves(locals, parts) ==
  LET m == Len(locals) IN
  IF \A i \in 2..m : locals[i] = locals[1]
  THEN Len(parts) <= m /\ \A i \in 1..Len(parts) : parts[i] = <<1>> \o locals[1]
  ELSE Accounts(parts, 1, m, <<SumLane(locals, 1), SumLane(locals, 2), SumLane(locals, 3)>>)

(* cells, outs: sequences sorted by voxel; maxSplit: most parts a voxel may come out in; surplus bound in total *)
Surplus(outs) == SumLane([i \in 1..Len(outs) |-> <<Len(outs[i].parts) - 1>>], 1)
Downsampled(cells, outs, n, perThousand) ==
  LET In == SelectSeq(cells, LAMBDA c : InRange(c.v)) IN
  /\ Len(outs) = Len(In)
  /\ \A i \in 1..Len(In) : outs[i].v = In[i].v /\ Len(outs[i].parts) >= 1 /\ Conserves(In[i].l, outs[i].parts)
  /\ IF perThousand = 0 THEN Surplus(outs) = 0 ELSE 1000 * Surplus(outs) <= n * perThousand
===============================================================================

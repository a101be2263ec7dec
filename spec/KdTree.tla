-------------------------------- MODULE KdTree --------------------------------
(* Design of the kd-tree: concurrent construction by tasks over disjoint index ranges with a shared atomic node counter
   (kdtree.hpp is the one-worker case, kdtree_omp.hpp / kdtree_tbb.hpp the parallel ones), and the pruned search.

   One action per step of create_node that is visible to other tasks: allocating a node, writing a leaf, splitting
   (partial sort + plane), spawning the children, joining them.  Any split axis is allowed, because the axis heuristics must
   not matter for correctness, and any permutation nth_element may produce.  N is the number of points, Cap the number of
   nodes reserved, Leaf the maximum leaf size.  AtomicAlloc = FALSE splits the counter increment into a read and a write
   (negative control: the lost update that a non-atomic counter would allow). *)
EXTENDS Knn, TLC

CONSTANTS N, Positions, Queries, Leaf, Cap, AtomicAlloc, JoinChildren

VARIABLES pts, arr, count, nodes, tasks, root
vars == <<pts, arr, count, nodes, tasks, root>>

NoNode == -1
Seg(f, t) == f..(t-1)                     \* index range [f, t) of arr (0-based, like the code)

Init ==
  /\ pts \in [1..N -> Positions]
  /\ arr = [i \in 0..N-1 |-> i + 1]
  /\ count = 0
  /\ nodes = <<>>
  /\ tasks = [id \in {<<>>} |-> [st |-> "new", first |-> 0, last |-> N, node |-> NoNode, tmp |-> NoNode,
                                 mid |-> 0, ret |-> NoNode]]
  /\ root = NoNode

Proj(a, p) == p[a]
NodeAt(n) == nodes[n]
SetNode(n, rec) == nodes' = [x \in DOMAIN nodes \cup {n} |-> IF x = n THEN rec ELSE nodes[x]]

Alloc(t) ==                               \* node_index = node_count++
  /\ AtomicAlloc
  /\ tasks[t].st = "new"
  /\ tasks' = [tasks EXCEPT ![t].st = "alloc", ![t].node = count]
  /\ count' = count + 1
  /\ UNCHANGED <<pts, arr, nodes, root>>

AllocRead(t) ==
  /\ ~AtomicAlloc
  /\ tasks[t].st = "new"
  /\ tasks' = [tasks EXCEPT ![t].st = "read", ![t].tmp = count]
  /\ UNCHANGED <<pts, arr, count, nodes, root>>
AllocWrite(t) ==
  /\ tasks[t].st = "read"
  /\ count' = tasks[t].tmp + 1
  /\ tasks' = [tasks EXCEPT ![t].st = "alloc", ![t].node = tasks[t].tmp]
  /\ UNCHANGED <<pts, arr, nodes, root>>

MakeLeaf(t) ==
  /\ tasks[t].st = "alloc"
  /\ tasks[t].last - tasks[t].first <= Leaf
  /\ SetNode(tasks[t].node, [kind |-> "leaf", first |-> tasks[t].first, last |-> tasks[t].last])
  /\ tasks' = [tasks EXCEPT ![t].st = "done", ![t].ret = tasks[t].node]
  /\ root' = IF t = <<>> THEN tasks[t].node ELSE root
  /\ UNCHANGED <<pts, arr, count>>

(* nth_element over [first, last): any rearrangement with nothing larger before mid and nothing smaller from mid on. *)
Split(t) ==
  LET f == tasks[t].first
      e == tasks[t].last
      n == e - f
      m == f + n \div 2
  IN
  /\ tasks[t].st = "alloc"
  /\ n > Leaf
  /\ \E ax \in {1, 2, 3} : \E pi \in Permutations(Seg(f, e)) :
       LET new == [i \in 0..N-1 |-> IF i \in Seg(f, e) THEN arr[pi[i]] ELSE arr[i]]
           key(i) == Proj(ax, pts[new[i]])
       IN /\ \A i \in Seg(f, m) : key(i) <= key(m)
          /\ \A i \in Seg(m, e) : key(i) >= key(m)
          /\ arr' = new
          /\ SetNode(tasks[t].node, [kind |-> "inner", axis |-> ax, thresh |-> key(m), left |-> NoNode, right |-> NoNode])
  /\ tasks' = [tasks EXCEPT ![t].st = "spawn", ![t].mid = m]
  /\ UNCHANGED <<pts, count, root>>

NewTask(f, e) == [st |-> "new", first |-> f, last |-> e, node |-> NoNode, tmp |-> NoNode, mid |-> 0, ret |-> NoNode]
Spawn(t) ==
  /\ tasks[t].st = "spawn"
  /\ tasks' = [x \in DOMAIN tasks \cup {t \o <<1>>, t \o <<2>>} |->
                 IF x = t \o <<1>> THEN NewTask(tasks[t].first, tasks[t].mid)
                 ELSE IF x = t \o <<2>> THEN NewTask(tasks[t].mid, tasks[t].last)
                 ELSE IF x = t THEN [tasks[t] EXCEPT !.st = "wait"] ELSE tasks[x]]
  /\ UNCHANGED <<pts, arr, count, nodes, root>>

Join(t) ==
  LET a == t \o <<1>>
      b == t \o <<2>> IN
  /\ tasks[t].st = "wait"
  /\ JoinChildren => tasks[a].st = "done" /\ tasks[b].st = "done"
  /\ SetNode(tasks[t].node, [NodeAt(tasks[t].node) EXCEPT !.left = tasks[a].ret, !.right = tasks[b].ret])
  /\ tasks' = [tasks EXCEPT ![t].st = "done", ![t].ret = tasks[t].node]
  /\ root' = IF t = <<>> THEN tasks[t].node ELSE root
  /\ UNCHANGED <<pts, arr, count>>

Step(t) == Alloc(t) \/ AllocRead(t) \/ AllocWrite(t) \/ MakeLeaf(t) \/ Split(t) \/ Spawn(t) \/ Join(t)
Next == \E t \in DOMAIN tasks : Step(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == tasks[<<>>].st = "done"

(* ---- search -------------------------------------------------------------------------------------------------------- *)
Inf == 1000000
Worst(r, k) == IF Len(r) < k THEN Inf ELSE r[k].d
(* KnnResult.push: keep the k best, inserting a new entry behind equal ones. *)
Push(r, k, i, d) ==
  IF d >= Worst(r, k) THEN r
  ELSE LET j == Cardinality({x \in DOMAIN r : r[x].d <= d})
           s == SubSeq(r, 1, j) \o <<[i |-> i, d |-> d]>> \o SubSeq(r, j + 1, Len(r))
       IN SubSeq(s, 1, Min2(Len(s), k))

RECURSIVE ScanLeaf(_, _, _, _, _)
ScanLeaf(r, k, q, i, e) == IF i >= e THEN r ELSE ScanLeaf(Push(r, k, arr[i], SqDist(pts[arr[i]], q)), k, q, i + 1, e)

RECURSIVE Search(_, _, _, _, _)                \* returns <<continue, result>>
Search(n, r, k, q, eps2) ==
  LET nd == nodes[n] IN
  IF nd.kind = "leaf" THEN LET s == ScanLeaf(r, k, q, nd.first, nd.last)
                           IN <<~(2 * Worst(s, k) < eps2), s>>
  ELSE LET diff == Proj(nd.axis, q) - nd.thresh
           best == IF diff < 0 THEN nd.left ELSE nd.right
           other == IF diff < 0 THEN nd.right ELSE nd.left
           s == Search(best, r, k, q, eps2)
       IN IF ~s[1] THEN s
          ELSE IF Worst(s[2], k) > diff * diff THEN Search(other, s[2], k, q, eps2) ELSE s

Answer(k, q, eps2) == Search(root, <<>>, k, q, eps2)[2]
AnsIdx(a) == [i \in 1..Len(a) |-> a[i].i]
AnsD(a) == [i \in 1..Len(a) |-> a[i].d]

(* ---- properties ---------------------------------------------------------------------------------------------------- *)
Active == {t \in DOMAIN tasks : tasks[t].st \in {"new", "read", "alloc", "spawn"}}
WithinCapacity == count <= Cap
DistinctNodes == \A s, t \in DOMAIN tasks : s # t /\ tasks[s].node # NoNode => tasks[s].node # tasks[t].node
DisjointRanges == \A s, t \in Active : s # t => Seg(tasks[s].first, tasks[s].last) \cap Seg(tasks[t].first, tasks[t].last) = {}
IsPermutation == Range([i \in 1..N |-> arr[i-1]]) = 1..N
Exact == Done => \A q \in Queries : \A k \in 1..N+1 :
           LET D(i) == SqDist(pts[i], q)
               a == Answer(k, q, 0)
           IN IsKnn(1..N, D, N, k, AnsIdx(a), AnsD(a))
EarlyStop == Done => \A q \in Queries : \A k \in 1..N+1 : \A eps2 \in {1, 3, 9} :
           LET D(i) == SqDist(pts[i], q)
               a == Answer(k, q, eps2)
           IN IsKnnEps(1..N, D, N, k, eps2, AnsIdx(a), AnsD(a))
Terminates == <>Done
=============================================================================

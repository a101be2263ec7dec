-------------------------------- MODULE MCContainer ------------------------------
(* Memory layouts refine the contract: fields of entry i live at addresses given by the layout, writes go to memory, and every read
   gives what the contract holds.  Layouts: "soa" one array per attribute, "aos" one record per point, "split" points in one buffer and
   covariances in another, "colmajor" component-wise arrays whose addresses depend on the size and are moved by a resize.  Negative
   controls: "overlap" records of too small a stride, "stale" a column-major layout resized without moving. *)
EXTENDS ContainerRule, FiniteSets, TLC
CONSTANTS Layout, MaxN, Vals, MaxOps
VARIABLES s, mem, ops
vars == <<s, mem, ops>>
Attrs == {"p", "q", "c"}
Dim == 2
Off(a) == CASE a = "p" -> 0 [] a = "q" -> 1 [] a = "c" -> 2
Stride == IF Layout = "overlap" THEN 3 * Dim - 1 ELSE 3 * Dim
Addr(n, a, i, j) ==
  CASE Layout = "soa" -> 100 * Off(a) + Dim * (i - 1) + j
    [] Layout \in {"aos", "overlap"} -> Stride * (i - 1) + Dim * Off(a) + j
    [] Layout = "split" -> IF a = "c" THEN 100 + Dim * (i - 1) + j ELSE 2 * Dim * (i - 1) + Dim * Off(a) + j
    [] Layout \in {"colmajor", "stale"} -> 100 * Off(a) + n * (j - 1) + i
Addrs == 0..300
Kind == IF Layout = "split" THEN 8 ELSE 7
Write(m, n, a, i, v) == [x \in Addrs |-> IF \E j \in 1..Dim : x = Addr(n, a, i, j) THEN v[CHOOSE j \in 1..Dim : x = Addr(n, a, i, j)] ELSE m[x]]
Read(m, n, a, i) == [j \in 1..Dim |-> m[Addr(n, a, i, j)]]
Move(m, o, n) == [x \in Addrs |-> IF \E a \in Attrs, i \in 1..o, j \in 1..Dim : i <= n /\ x = Addr(n, a, i, j)
                                  THEN LET t == CHOOSE t \in Attrs \X (1..o) \X (1..Dim) : t[2] <= n /\ x = Addr(n, t[1], t[2], t[3]) IN m[Addr(o, t[1], t[2], t[3])] ELSE m[x]]
Init == s = Fresh(Kind) /\ mem = [x \in Addrs |-> 0] /\ ops = 0
DoResize(n) == /\ s' = ResizeCloud(ResizeCovs(s, n), n)
               /\ mem' = (IF Layout = "colmajor" /\ s.n > 0 THEN Move(mem, s.n, n) ELSE mem)
DoSet(a, i, v) == s' = Set(s, a, i, v) /\ mem' = Write(mem, s.n, a, i, v)
Next == ops < MaxOps /\ ops' = ops + 1
        /\ \/ \E n \in 0..MaxN : DoResize(n)
           \/ \E a \in Attrs, i \in 1..s.n, v \in [1..Dim -> Vals] : DoSet(a, i, v)
Spec == Init /\ [][Next]_vars
Known(a, i) == CASE a = "p" -> s.p[i] [] a = "q" -> s.q[i] [] a = "c" -> s.c[i]
ReadsBack == \A a \in Attrs : \A i \in 1..s.n : Known(a, i) # <<>> => Read(mem, s.n, a, i) = Known(a, i)
================================================================================

------------------------------ MODULE ReductionTrace ------------------------------
(* Results of the real reductions over mock factors:
     sys : acc (which factors accept), vh/vb/ve (code of each factor's H, b and error), calls and src (evaluations of each
           factor and the source index it saw), H, b, e (result), ok (arguments handed through)
     err : w (value of each factor), calls, e, ok
   A factor coded v contributes v * HC(i, j) to H and v * i to b. *)
EXTENDS TraceBase, SequencesExt
HC(i, j) == LET a == IF i < j THEN i ELSE j b == IF i < j THEN j ELSE i IN 1 + 6 * (a - 1) + (b - 1)
Once(calls, n) == Len(calls) = n /\ \A i \in 1..n : calls[i] = 1
Total(v, acc) == FoldLeft(LAMBDA s, i : IF acc[i] = 1 THEN s + v[i] ELSE s, 0, [i \in 1..Len(v) |-> i])
All(v) == FoldLeft(LAMBDA s, x : s + x, 0, v)
SumOf(e) ==
  LET n == Len(e.acc) h == Total(e.vh, e.acc) b == Total(e.vb, e.acc)
  IN /\ e.ok /\ Once(e.calls, n)
     /\ \A i \in 1..n : e.src[i] = i - 1
     /\ \A i, j \in 1..6 : e.H[6 * (i - 1) + j] = h * HC(i, j)
     /\ \A i \in 1..6 : e.b[i] = b * i
     /\ e.e = Total(e.ve, e.acc)
Sys == IsEvent("sys") /\ Holds(SumOf(Ev))
Err == IsEvent("err") /\ Holds(Ev.ok /\ Once(Ev.calls, Len(Ev.w)) /\ Ev.e = All(Ev.w))
Init == l = 1
Next == Sys \/ Err \/ End
Spec == Init /\ [][Next]_l
=============================================================================

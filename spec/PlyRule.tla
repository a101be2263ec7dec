--------------------------------- MODULE PlyRule ---------------------------------
(* Point files.  kind "pts": the four floats of every point, one after the other; "ply": a header and, for every vertex, one float per
   property.  Value(v, i, j): the number stored for property j (from 0) of vertex i (from 1), as an integer. *)
EXTENDS Integers, Sequences
Value(v, i, j) == CASE v = 0 -> 16 * i + j + 1 [] v = 1 -> 1000 * j - 37 * i [] v = 2 -> IF j = 3 THEN 5 ELSE -(i * i + j)
Point(v, i) == <<Value(v, i, 0), Value(v, i, 1), Value(v, i, 2), 1>>
Supported(kind) == kind \in {"pts", "ply", "upper", "comment"}      \* the others: no such file, a property that is not a float, an element that is not a vertex
Expected(kind, n, v) == IF Supported(kind) THEN [i \in 1..n |-> Point(v, i)] ELSE <<>>
(* What reading a fixed sixteen bytes per vertex gives: the finding recorded in known_findings.txt for more than four properties. *)
At(n, s, v, a) == IF a < 4 * n THEN Value(v, (a \div s) + 1, a % s) ELSE 0
FixedStride(n, s, v) == [i \in 1..n |-> <<At(n, s, v, (i - 1) * s), At(n, s, v, (i - 1) * s + 1), At(n, s, v, (i - 1) * s + 2), 1>>]
================================================================================

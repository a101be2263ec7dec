---------------------------------- MODULE MCPly ----------------------------------
(* Design of the PLY reader: header lines one at a time, then a read of a number of floats, then one strided pass.  A short file ends the
   read early; floats that were not read are zero.  Bug "four": the amount that is read does not depend on the number of properties;
   "stride": the pass does not. *)
EXTENDS PlyRule
CONSTANTS Bug, MaxN, MaxS
VARIABLES n, s, v, bad, line, props, size, got, buffer, points, pc
vars == <<n, s, v, bad, line, props, size, got, buffer, points, pc>>
Init == /\ n \in 0..MaxN /\ s \in 3..MaxS /\ v \in 0..2 /\ bad \in BOOLEAN
        /\ line = 0 /\ props = 0 /\ size = 0 /\ got = 0 /\ buffer = <<>> /\ points = <<>> /\ pc = "header"
Header == /\ pc = "header"
          /\ IF line = 0 THEN size' = n /\ line' = 1 /\ UNCHANGED <<props, pc>>
             ELSE IF line <= s THEN IF bad /\ line = s THEN pc' = "refused" /\ UNCHANGED <<props, line, size>> ELSE props' = props + 1 /\ line' = line + 1 /\ UNCHANGED <<size, pc>>
             ELSE pc' = "read" /\ UNCHANGED <<props, line, size>>
          /\ UNCHANGED <<n, s, v, bad, got, buffer, points>>
Amount == (IF Bug = "four" THEN 4 ELSE props) * size
Stored(a) == Value(v, (a \div s) + 1, a % s)
Read == /\ pc = "read"
        /\ IF got < Amount /\ got < n * s THEN got' = got + 1 /\ buffer' = Append(buffer, Stored(got)) /\ UNCHANGED pc ELSE pc' = "pass" /\ UNCHANGED <<got, buffer>>
        /\ UNCHANGED <<n, s, v, bad, line, props, size, points>>
Get(a) == IF a < Len(buffer) THEN buffer[a + 1] ELSE 0
Pass == /\ pc = "pass"
        /\ IF Len(points) < size THEN LET b == Len(points) * (IF Bug = "stride" THEN 4 ELSE props)
                                      IN points' = Append(points, <<Get(b), Get(b + 1), Get(b + 2), 1>>) /\ UNCHANGED pc
           ELSE pc' = "end" /\ UNCHANGED points
        /\ UNCHANGED <<n, s, v, bad, line, props, size, got, buffer>>
Next == Header \/ Read \/ Pass
Spec == Init /\ [][Next]_vars
Exact == (pc = "end" => ~bad /\ points = Expected("ply", n, v)) /\ (pc = "refused" => points = Expected("double", n, v))
(* the recorded finding is what this bug produces *)
Recorded == pc = "end" /\ s > 4 => points = FixedStride(n, s, v)
================================================================================

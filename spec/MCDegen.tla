--------------------------------- MODULE MCDegen ---------------------------------
(* Design of the pipeline (downsample, search, estimate, pair) in single accesses to the cloud, for clouds of 0..MaxN points.  Every
   access names a cell; cells outside 1..n do not exist.  Negative controls: "first" takes the first voxel of the sorted list without
   looking whether there is one, "all" averages the k neighbours asked for and not those found, "blind" uses the neighbour of a
   search that found nothing. *)
EXTENDS DegenRule, FiniteSets, TLC
CONSTANTS MaxN, MaxK, Design
VARIABLES n, d, k, stage, out, acc, res
vars == <<n, d, k, stage, out, acc, res>>
Junk == 99
Init == /\ n \in 0..MaxN /\ d \in 0..n /\ (n > 0 => d > 0) /\ k \in 1..MaxK
        /\ stage = "sample" /\ out = 0 /\ acc = {} /\ res = [valid |-> FALSE, inliers |-> 0]
Sample == /\ stage = "sample"
          /\ acc' = (IF n = 0 /\ Design # "first" THEN {} ELSE {[cell |-> 1, of |-> n]} \cup {[cell |-> i, of |-> n] : i \in 1..n})
          /\ out' = d /\ stage' = "estimate" /\ UNCHANGED <<n, d, k, res>>
Estimate == /\ stage = "estimate" /\ stage' = "align"
            /\ LET f == Found(out, k)
                   used == IF Design = "all" /\ out > 0 THEN k ELSE f IN
                 /\ acc' = acc \cup {[cell |-> i, of |-> out] : i \in 1..used}
                 /\ res' = [res EXCEPT !.valid = out > 0 /\ f >= MinNeighbors]
            /\ UNCHANGED <<n, d, k, out>>
(* a source point against a target of the same size, or an empty one *)
Align == /\ stage = "align" /\ stage' = "done"
         /\ \E nt \in {0, out} :
              LET found == Found(nt, 1)
                  idx == IF found = 1 THEN 1 ELSE Junk IN
              /\ IF out > 0 /\ (found = 1 \/ Design = "blind")
                 THEN acc' = acc \cup {[cell |-> idx, of |-> nt]} /\ res' = [res EXCEPT !.inliers = out]
                 ELSE UNCHANGED <<acc, res>>
         /\ UNCHANGED <<n, d, k, out>>
Next == Sample \/ Estimate \/ Align
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
InBounds == \A a \in acc : a.cell \in 1..a.of
Markers == stage \in {"align", "done"} => (res.valid <=> ~Invalid(out, k))
Returns == <>(stage = "done")
================================================================================

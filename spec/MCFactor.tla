-------------------------------- MODULE MCFactor --------------------------------
(* Design of a point factor on a line of integer positions: the factor keeps a target index; a linearization clears it, searches,
   asks the rejector and only then stores the new index.  Refines PairRule: after every step the factor is an inlier exactly if
   the rule admits a pairing, and its error is that of a nearest admissible target.
   Mode "stale" (negative control): the index is not cleared. *)
EXTENDS PairRule, TLC
CONSTANTS Positions, Shifts, Thresholds, Mode
VARIABLES tgt, idx, pc, shift, thr, found, rule
vars == <<tgt, idx, pc, shift, thr, found, rule>>
None == -1
D(j, s) == (tgt[j] - s) * (tgt[j] - s)
Near(s) == {j \in DOMAIN tgt : \A k \in DOMAIN tgt : D(j, s) <= D(k, s)}
Init == /\ tgt \in UNION {[1..n -> Positions] : n \in 0..3} /\ idx = None /\ pc = "idle" /\ shift = 0 /\ thr = 0 /\ found = None /\ rule = {}
Call == /\ pc = "idle" /\ shift' \in Shifts /\ thr' \in Thresholds /\ pc' = "search"
        /\ idx' = IF Mode = "stale" THEN idx ELSE None
        /\ UNCHANGED <<tgt, found, rule>>
Search == /\ pc = "search"
          /\ \/ Near(shift) = {} /\ found' = None
             \/ found' \in Near(shift)
          /\ pc' = "reject" /\ UNCHANGED <<tgt, idx, shift, thr, rule>>
Reject == /\ pc = "reject"
          /\ idx' = IF found # None /\ D(found, shift) <= thr THEN found ELSE idx
          /\ LET adm(j) == D(j, shift) <= thr IN rule' = IF MayReject(Near(shift), adm) THEN {} ELSE MayAccept(Near(shift), adm)
          /\ pc' = "idle" /\ UNCHANGED <<tgt, shift, thr, found>>
Next == Call \/ Search \/ Reject
Spec == Init /\ [][Next]_vars
Paired == pc = "idle" => IF rule = {} THEN idx = None ELSE idx \in rule
================================================================================

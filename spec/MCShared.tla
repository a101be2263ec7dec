--------------------------------- MODULE MCShared --------------------------------
(* Design of concurrent read-only requests in steps: a caller notes its request in its scratch space, reads the shared structure cell
   by cell, keeps the best cell in the scratch space, and returns it.  Shared (negative controls): "scratch" keeps the scratch space
   in the object, "cache" keeps the last answer in the object and returns it for the next request that looks the same. *)
EXTENDS SharedRule, FiniteSets, TLC
CONSTANTS Callers, Cells, Vals, Design
VARIABLES cell, pc, req, scratch, cache, ret
vars == <<cell, pc, req, scratch, cache, ret>>
Dist(a, b) == IF a > b THEN a - b ELSE b - a
Best(c, q) == CHOOSE i \in Cells : \A j \in Cells : Dist(c[i], q) < Dist(c[j], q) \/ (Dist(c[i], q) = Dist(c[j], q) /\ i <= j)
None == [q |-> 0, pos |-> 0, best |-> 0]
Slot(p) == IF Design = "scratch" THEN CHOOSE x \in Callers : TRUE ELSE p
Init == /\ cell \in [Cells -> Vals] /\ pc = [p \in Callers |-> "idle"] /\ req \in [Callers -> Vals]
        /\ scratch = [p \in Callers |-> None] /\ cache = [q |-> -1, best |-> 0] /\ ret = [p \in Callers |-> 0]
Begin(p) == /\ pc[p] = "idle"
            /\ scratch' = [scratch EXCEPT ![Slot(p)] = [q |-> req[p], pos |-> 0, best |-> 0]]
            /\ IF Design = "cache" /\ cache.q = req[p] \div 2
               THEN ret' = [ret EXCEPT ![p] = cache.best] /\ pc' = [pc EXCEPT ![p] = "done"] /\ UNCHANGED cache
               ELSE pc' = [pc EXCEPT ![p] = "scan"] /\ UNCHANGED <<ret, cache>>
            /\ UNCHANGED <<cell, req>>
Scan(p) == LET s == scratch[Slot(p)] IN
            /\ pc[p] = "scan" /\ s.pos < Cardinality(Cells)
            /\ LET i == s.pos + 1 IN
                 scratch' = [scratch EXCEPT ![Slot(p)] = [s EXCEPT !.pos = i, !.best = IF s.best = 0 \/ Dist(cell[i], s.q) < Dist(cell[s.best], s.q) THEN i ELSE s.best]]
            /\ UNCHANGED <<cell, pc, req, cache, ret>>
Return(p) == /\ pc[p] = "scan" /\ scratch[Slot(p)].pos >= Cardinality(Cells)
             /\ ret' = [ret EXCEPT ![p] = scratch[Slot(p)].best] /\ pc' = [pc EXCEPT ![p] = "done"]
             /\ cache' = (IF Design = "cache" THEN [q |-> req[p] \div 2, best |-> scratch[Slot(p)].best] ELSE cache)
             /\ UNCHANGED <<cell, req, scratch>>
Next == \E p \in Callers : Begin(p) \/ Scan(p) \/ Return(p)
Spec == Init /\ [][Next]_vars
AsAlone == \A p \in Callers : pc[p] = "done" => ret[p] = Best(cell, req[p])
NothingWritten == [][cell' = cell]_vars
================================================================================

------------------------------- MODULE SharedTrace ------------------------------
(* world: new shared objects, with a digest of their content; alone: a request made while nothing else runs; ask: the same request
   made while others run (thr: caller); near: an alignment with a parallel backend, difference to the answer alone; after: the digest
   when all callers are finished. *)
EXTENDS TraceBase, SharedRule
VARIABLES base, content
vars == <<l, base, content>>
World == IsEvent("world") /\ base' = <<>> /\ content' = Ev.digest
Single == IsEvent("alone") /\ Holds(Ev.key = Len(base) + 1) /\ base' = Append(base, Ev.ans) /\ UNCHANGED content
Ask == IsEvent("ask") /\ Holds(Consistent(base, Ev.key, Ev.ans)) /\ UNCHANGED <<base, content>>
Near == IsEvent("near") /\ Holds(Ev.diff <= 100) /\ UNCHANGED <<base, content>>
After == IsEvent("after") /\ Holds(Ev.digest = content) /\ UNCHANGED <<base, content>>
Finish == End /\ UNCHANGED <<base, content>>
Init == l = 1 /\ base = <<>> /\ content = <<>>
Next == World \/ Single \/ Ask \/ Near \/ After \/ Finish
Spec == Init /\ [][Next]_vars
================================================================================

--------------------------------- MODULE PyTrace ---------------------------------
(* session: a sequence of Python calls starts, with the plan that the reference (the C++ interface) executes for it;
   obs: what Python returned and what the reference computed, as quantised rows (a sample), sizes, and the largest difference.
   scribble: the arrays that were given in, and those given out, were overwritten in between; nothing may depend on that. *)
EXTENDS TraceBase, PyRule
VARIABLES todo, cur
Session == IsEvent("session") /\ Holds(todo = <<>> /\ Ev.plan = Plan(Ev.c)) /\ todo' = Observations(Ev.c) /\ cur' = Ev.c
ObsOk == /\ todo # <<>> /\ Head(todo) = Ev.what
         /\ IF Ev.what = "refused" THEN Ev.outcome = (IF BadShape(cur) THEN Refusal(cur) ELSE "neutral")
            ELSE Ev.n = Ev.wn /\ Ev.diff \in 0..20 /\ NearAll(Ev.got, Ev.want) /\ Ev.access
Obs == IsEvent("obs") /\ Holds(ObsOk) /\ todo' = Tail(todo) /\ UNCHANGED cur
Init == l = 1 /\ todo = <<>> /\ cur = <<>>
Fin == End /\ Holds(todo = <<>>) /\ UNCHANGED <<todo, cur>>
Next == Session \/ Obs \/ Fin
Spec == Init /\ [][Next]_<<l, todo, cur>>
================================================================================

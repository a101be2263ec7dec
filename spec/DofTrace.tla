-------------------------------- MODULE DofTrace --------------------------------
(* new: a registration with every direction active; rot/trans: a mask is set; step: one observed step of the optimizer with the
   system of the reduction; result: the run is over, same: all its poses equal those without a restriction;
   scene: a whole alignment with the given masks, rel: the change of the initial guess *)
EXTENDS TraceBase, DofRule
VARIABLES rot, trans
Mask == rot \o trans
New == IsEvent("new") /\ rot' = Ones /\ trans' = Ones
Rot == IsEvent("rot") /\ rot' = Ev.m /\ UNCHANGED trans
Trans == IsEvent("trans") /\ trans' = Ev.m /\ UNCHANGED rot
Step == IsEvent("step") /\ Holds(RestrictedStep(Mask, Ev.H, Ev.b, Ev.rel)) /\ UNCHANGED <<rot, trans>>
Result == IsEvent("result") /\ Holds(rot = Ones /\ trans = Ones => Ev.same) /\ UNCHANGED <<rot, trans>>
Scene == IsEvent("scene") /\ Holds(LET m == Ev.rot \o Ev.trans IN (\A i \in 1..6 : m[i] = 0 => Abs(Ev.rel[i]) <= 66) /\ (Ev.rot = Ones /\ Ev.trans = Ones => Ev.same))
         /\ UNCHANGED <<rot, trans>>
Init == l = 1 /\ rot = Ones /\ trans = Ones
Next == New \/ Rot \/ Trans \/ Step \/ Result \/ Scene \/ (End /\ UNCHANGED <<rot, trans>>)
Spec == Init /\ [][Next]_<<l, rot, trans>>
================================================================================

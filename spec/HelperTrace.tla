------------------------------- MODULE HelperTrace -------------------------------
(* Calls of the helpers, each next to the explicit pipeline.  plan: the stages the explicit pipeline executed; diff: largest
   differences (quantised) between both outcomes; teams: sizes of the thread teams the helper started; alt: settings for which the
   explicit pipeline answers differently on this very input when only that setting is changed (what the comparison can see). *)
EXTENDS TraceBase, HelperRule
VARIABLE seen
vars == <<l, seen>>
Stages == {"down", "tree", "feat", "map", "reg"}
SamePlan(p) == Len(p) = Len(Ev.plan) /\ \A i \in 1..Len(p) : p[i].stage = Ev.plan[i].stage /\ p[i] = Ev.plan[i]
Pre == /\ IsEvent("pre")
       /\ Holds(SamePlan(PrePlan(Ev.res, Ev.k)) /\ TeamsOk(Ev.threads, Ev.teams)
                /\ Ev.diff.count /\ Ev.diff.points <= 1 /\ Ev.diff.normals <= 1 /\ Ev.diff.covs <= 1 /\ Ev.diff.tree)
       /\ seen' = seen \cup {Ev.alt[i] : i \in 1..Len(Ev.alt)}
Voxel == /\ IsEvent("map")
         /\ Holds(SamePlan(MapPlan(Ev.res)) /\ Ev.diff.count /\ Ev.diff.points <= 1 /\ Ev.diff.covs <= 1)
         /\ seen' = seen \cup {Ev.alt[i] : i \in 1..Len(Ev.alt)}
Same(d) == d.pose <= 10 /\ d.hess <= 10 /\ d.rhs <= 10 /\ d.err <= 10 /\ d.conv /\ d.inl /\ d.iters
Align == /\ IsEvent("align")
         /\ Holds(SamePlan(AlignPlan(Ev.fn, Ev.type, Ev.set)) /\ TeamsOk(Ev.set.threads, Ev.teams) /\ Ev.spoke = Ev.set.verbose
                  /\ IF Ev.plan = <<>> THEN ~Ev.converged /\ Ev.inliers = 0 /\ Ev.iterations = 0 /\ (Ev.atzero \/ Ev.atinit)
                     ELSE Same(Ev.diff))
         /\ seen' = seen \cup {Ev.alt[i] : i \in 1..Len(Ev.alt)}
Needed == {"res", "k", "mres", "vox", "down", "corr", "reps", "teps", "iters", "init", "type"}
Finish == End /\ Holds(Ev.full => Needed \subseteq seen) /\ UNCHANGED seen
Init == l = 1 /\ seen = {}
Next == Pre \/ Voxel \/ Align \/ Finish
Spec == Init /\ [][Next]_vars
================================================================================

------------------------------- MODULE HelperRule -------------------------------
(* What a one-call helper has to do: the sequence of stages of the explicit pipeline with the parameters of every stage, as a
   function of the overload, the registration type and the settings alone. *)
EXTENDS Integers, Sequences
Down(res) == [stage |-> "down", res |-> res]
Tree == [stage |-> "tree"]
Feat(k) == [stage |-> "feat", k |-> k]
Map(res) == [stage |-> "map", res |-> res]
Reg(type, s) == [stage |-> "reg", type |-> type, corr |-> s.corr, reps |-> s.reps, teps |-> s.teps, iters |-> s.iters, init |-> s.init]
PrePlan(res, k) == <<Down(res), Tree, Feat(k)>>
MapPlan(res) == <<Map(res)>>
(* overloads: "tree" clouds and a tree, "map" a Gaussian voxel map and a cloud, anything else: raw points *)
AlignPlan(fn, type, s) ==
  CASE fn = "tree" -> IF type = "VGICP" THEN <<>> ELSE <<Reg(type, s)>>
    [] fn = "map" -> <<Reg("VGICP", s)>>
    [] OTHER -> PrePlan(s.down, 10) \o (IF type = "VGICP" THEN MapPlan(s.vox) ELSE <<>>) \o <<Reg(type, s)>>
(* sizes of the thread teams that were started: none is larger than asked for, and the work is not done by fewer either *)
TeamsOk(n, teams) == LET big == {teams[i] : i \in 1..Len(teams)} \ {1} IN big \in {{}, {n}} /\ (n > 1 /\ Len(teams) > 0 => n \in big)
================================================================================

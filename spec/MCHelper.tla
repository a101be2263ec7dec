-------------------------------- MODULE MCHelper --------------------------------
(* Design of the helpers: every branch owns a freshly built registration object with default parameters; the helper copies the
   settings into it one by one and runs it.  Sets of settings that differ from the defaults are enumerated.  The invariant: what
   was executed is the plan, and every team has the given number of threads.  Bug: the forwarding that is missing. *)
EXTENDS HelperRule, FiniteSets, TLC
CONSTANTS Bug
VARIABLES fn, type, s, pc, obj, done, teams
vars == <<fn, type, s, pc, obj, done, teams>>
Fields == {"down", "vox", "corr", "reps", "teps", "iters", "init", "threads"}
Default == [down |-> 0, vox |-> 0, corr |-> 0, reps |-> 0, teps |-> 0, iters |-> 0, init |-> 0, threads |-> 4]
Other == [down |-> 1, vox |-> 1, corr |-> 1, reps |-> 1, teps |-> 1, iters |-> 1, init |-> 1, threads |-> 1]
Init ==
  /\ fn \in {"tree", "map", "raw"} /\ type \in {"ICP", "PLANE_ICP", "GICP", "VGICP"}
  /\ (fn = "map" => type = "VGICP")
  /\ \E D \in SUBSET Fields, n \in {1, 2, 4, 6} : s = [[f \in Fields |-> IF f \in D THEN Other[f] ELSE Default[f]] EXCEPT !.threads = n]
  /\ pc = (IF fn = "raw" THEN "down" ELSE "new") /\ obj = Default /\ done = <<>> /\ teams = <<>>
Team(missing) == IF s.threads = 1 THEN <<>> ELSE <<IF missing THEN 4 ELSE s.threads>>
Stage(at, next, st, tm) == pc = at /\ done' = Append(done, st) /\ teams' = teams \o tm /\ pc' = next /\ UNCHANGED <<fn, type, s, obj>>
Pre == Stage("down", "feat", Down(s.down), Team(Bug = "threads")) \/ Stage("feat", "map", Feat(10), Team(FALSE))
Vox == pc = "map" /\ pc' = "new" /\ done' = (IF type = "VGICP" THEN Append(done, Map(s.vox)) ELSE done) /\ UNCHANGED <<fn, type, s, obj, teams>>
New == /\ pc = "new" /\ obj' = Default /\ pc' = (IF fn = "tree" /\ type = "VGICP" THEN "end" ELSE "corr") /\ UNCHANGED <<fn, type, s, done, teams>>
Order == <<"corr", "reps", "teps", "iters", "threads", "run">>
Forward == \E i \in 1..5 : /\ pc = Order[i] /\ pc' = Order[i + 1]
                           /\ obj' = (IF Bug = Order[i] /\ type = "VGICP" THEN obj ELSE [obj EXCEPT ![Order[i]] = s[Order[i]]])
                           /\ UNCHANGED <<fn, type, s, done, teams>>
Run == Stage("run", "end", [Reg(type, obj) EXCEPT !.init = s.init], IF obj.threads = 1 THEN <<>> ELSE <<obj.threads>>)
Next == Pre \/ Vox \/ New \/ Forward \/ Run
Spec == Init /\ [][Next]_vars
NoTree(p) == SelectSeq(p, LAMBDA x : x.stage # "tree")
AsPlanned == pc = "end" => done = NoTree(AlignPlan(fn, type, s))
TeamsAsked == pc = "end" => TeamsOk(s.threads, teams)
================================================================================

--------------------------------- MODULE PclRule ---------------------------------
(* The logical state of a PCL-style registration object: what the user has set, and nothing else.
   s.src, s.tgt: cloud (0: none).  s.sc, s.tc: covariances of these clouds: None, <<"user", id>> as supplied, or <<"est", k>>
   as estimated with k neighbours by the first alignment that needed them (they stay, whatever k becomes, until the cloud or the
   covariances are replaced).  The remaining fields are settings. *)
EXTENDS Integers, Sequences
None == <<"none", 0>>
User(id) == <<"user", id>>
Est(k) == <<"est", k>>
Fresh == [src |-> 0, tgt |-> 0, sc |-> None, tc |-> None, type |-> "GICP", res |-> 1000, k |-> 20, corr |-> 1000000, iters |-> 10,
          eps |-> 500, reps |-> 2000, threads |-> 4]
SetSource(s, c, empty) == IF empty \/ c = s.src THEN s ELSE [s EXCEPT !.src = c, !.sc = None]
SetTarget(s, c, empty) == IF empty \/ c = s.tgt THEN s ELSE [s EXCEPT !.tgt = c, !.tc = None]
SetSourceCovs(s, id, fits) == IF s.src = 0 \/ ~fits THEN s ELSE [s EXCEPT !.sc = User(id)]
SetTargetCovs(s, id, fits) == IF s.tgt = 0 \/ ~fits THEN s ELSE [s EXCEPT !.tc = User(id)]
Swap(s) == [s EXCEPT !.src = s.tgt, !.tgt = s.src, !.sc = s.tc, !.tc = s.sc]
ClearSource(s) == [s EXCEPT !.src = 0, !.sc = None]
ClearTarget(s) == [s EXCEPT !.tgt = 0, !.tc = None]
SetType(s, t) == IF t \in {"GICP", "VGICP"} THEN [s EXCEPT !.type = t] ELSE s
SetRes(s, r) == [s EXCEPT !.res = IF r <= 0 THEN 1000 ELSE r]
SetK(s, k) == [s EXCEPT !.k = IF k < 5 THEN 5 ELSE k]
SetThreads(s, n) == [s EXCEPT !.threads = IF n <= 0 THEN 1 ELSE n]
CanAlign(s) == s.src # 0 /\ s.tgt # 0
(* an alignment estimates what is missing; its result is a function of the state afterwards and of the initial guess *)
Aligned(s) == [s EXCEPT !.sc = IF s.sc = None THEN Est(s.k) ELSE s.sc, !.tc = IF s.tc = None THEN Est(s.k) ELSE s.tc]
================================================================================

-------------------------------- MODULE DegenTrace -------------------------------
(* call: an operation starts; the events after it are its results.  A driver that dies inside an operation leaves a trace which ends
   with its call. *)
EXTENDS TraceBase, DegenRule
Call == IsEvent("call")
SearchOk == /\ Ev.ok
            /\ (Ev.all => Ev.found = Found(Ev.n, Ev.k) /\ Ev.one = Sign(Ev.n))
            /\ Ev.found <= Found(Ev.n, Ev.k) /\ Ev.one <= Sign(Ev.n)
            /\ (Ev.one = Sign(Ev.found))
Search == IsEvent("search") /\ Holds(SearchOk)
Out == CASE Ev.rule = "own" -> OwnVoxel(Ev.n, Ev.d) [] Ev.rule = "one" -> OneVoxel(Ev.n) [] Ev.rule = "none" -> 0
         [] Ev.rule = "random" -> Samples(Ev.n, Ev.k) [] Ev.rule = "all" -> Ev.n
Sample == IsEvent("sample") /\ Holds(Ev.ok /\ Ev.out = Out)
Features == IsEvent("features") /\ Holds(Ev.size = Ev.n)
FeatureOk == IF Invalid(Ev.n, Ev.k) THEN (Ev.hasn => Ev.normal = Zero) /\ (Ev.hasc => Ev.cov = Identity3)
             ELSE (Ev.hasn => Ev.norm \in 9990..10010) /\ (Ev.hasc => Ev.trace \in 19990..20030 /\ Ev.asym \in -10..10)
Feature == IsEvent("feature") /\ Holds(FeatureOk)
AlignOk == /\ Ev.finite /\ Ev.inliers \in 0..Ev.ns
           /\ (NoPairs(Ev.ns, Ev.nt, Ev.apart) => Neutral(Ev))
           /\ (Ev.flat => Ev.moved = 0)                 \* only invalid normals
           /\ (Ev.iters = 0 => Ev.moved = 0 /\ Ev.inliers = 0)
Align == IsEvent("align") /\ Holds(AlignOk)
Init == l = 1
Next == Call \/ Search \/ Sample \/ Features \/ Feature \/ Align \/ End
Spec == Init /\ [][Next]_l
================================================================================

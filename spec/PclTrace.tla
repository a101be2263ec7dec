-------------------------------- MODULE PclTrace --------------------------------
(* A history of one PCL-style object.  align: ref: what the reference computations were given (explicit pipeline and a fresh
   object); pose, cloud, fit, hess, covs: largest differences to them (quantised), conv: equal flags; inl: equal numbers of inliers. *)
EXTENDS TraceBase, PclRule
VARIABLE s
New == IsEvent("new") /\ s' = Fresh
Op(o, t) == IsEvent(o) /\ s' = t
Ref == [src |-> Ev.ref.src, tgt |-> Ev.ref.tgt, sc |-> Ev.ref.sc, tc |-> Ev.ref.tc, type |-> Ev.ref.type, res |-> Ev.ref.res, k |-> Ev.ref.k,
        corr |-> Ev.ref.corr, iters |-> Ev.ref.iters, eps |-> Ev.ref.eps, reps |-> Ev.ref.reps, threads |-> Ev.ref.threads]
Same(r) == r.pose <= 10 /\ r.cloud <= 20 /\ r.fit <= 10 /\ r.hess <= 10 /\ r.covs <= 10 /\ r.conv /\ r.inl
Align == /\ IsEvent("align")
         /\ Holds(CanAlign(s) /\ Ref = Aligned(s) /\ Same(Ev.pipeline) /\ Same(Ev.fresh))
         /\ s' = Aligned(s)
Init == l = 1 /\ s = Fresh
Next == New \/ Align
  \/ Op("src", SetSource(s, Ev.v, Ev.empty)) \/ Op("tgt", SetTarget(s, Ev.v, Ev.empty))
  \/ Op("scov", SetSourceCovs(s, Ev.v, Ev.fits)) \/ Op("tcov", SetTargetCovs(s, Ev.v, Ev.fits))
  \/ Op("swap", Swap(s)) \/ Op("clears", ClearSource(s)) \/ Op("cleart", ClearTarget(s))
  \/ Op("type", SetType(s, Ev.v)) \/ Op("res", SetRes(s, Ev.v)) \/ Op("k", SetK(s, Ev.v)) \/ Op("threads", SetThreads(s, Ev.v))
  \/ Op("corr", [s EXCEPT !.corr = Ev.v]) \/ Op("iters", [s EXCEPT !.iters = Ev.v]) \/ Op("eps", [s EXCEPT !.eps = Ev.v])
  \/ Op("reps", [s EXCEPT !.reps = Ev.v])
  \/ (End /\ UNCHANGED s)
Spec == Init /\ [][Next]_<<l, s>>
================================================================================

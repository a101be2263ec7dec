-------------------------------- MODULE OptTrace --------------------------------
(* Runs of the real optimizers on scripted reductions and general factors:
     start : opt, maxit, maxin, f, lam, reps, teps (tolerances * QS), exact, init (pose), frozen
     lin   : pose, H, b, e, inl, ok       the system at a pose (point part plus general part); ok: both parts evaluated there, once, with
                                          the arguments of the call
     err   : pose, rel, e, nan, ok        the error at a pose; rel: twist from the last linearization pose, times QS
     done  : pose, rel, conv, iters, H, b, e, inl
   grid: the pose is a proper rigid transform and, in exact runs, rel is an exact multiple of 1/QS.
   Poses are numbered in the order of their appearance.  H is integral, b is in 1/1024. *)
EXTENDS TraceBase, OptRule
VARIABLES run, st, sys
QS == 16384
Abs(x) == IF x < 0 THEN -x ELSE x
Sum6(f(_)) == f(1) + f(2) + f(3) + f(4) + f(5) + f(6)
HAt(s, i, j) == s.H[6 * (i - 1) + j]

(* (H + lam I) rel = -b up to the quantisation of rel *)
Solves(s, lam, ev) ==
  LET rel == ev.rel IN
  /\ ev.grid \/ (Log[run].exact /\ lam > 65536)
  /\ \A i \in 1..6 :
    LET row(j) == HAt(s, i, j) * rel[j]
        mag(j) == Abs(HAt(s, i, j))
        r == 1024 * Sum6(row) + lam * rel[i] + QS * s.b[i]
    IN Abs(rel[i]) < 2000000 /\ Abs(r) <= 1024 * Sum6(mag) + lam

SqSum(rel, o) == rel[o+1] * rel[o+1] + rel[o+2] * rel[o+2] + rel[o+3] * rel[o+3]
Big(rel, o) == \E i \in 1..3 : Abs(rel[o + i]) > 20000
Within(rel, o, eps) == ~Big(rel, o) /\ SqSum(rel, o) <= eps * eps
Border(rel, o, eps) == ~Big(rel, o) /\ Abs(SqSum(rel, o) - eps * eps) <= 4 * eps + 4
(* the values the convergence test may have: both near the border of a tolerance, unless the step is exactly representable *)
Small(R, rel) ==
  LET a == Within(rel, 0, R.reps) b == Within(rel, 3, R.teps) IN
  IF R.exact THEN {a /\ b}
  ELSE {x /\ y : x \in IF Border(rel, 0, R.reps) THEN {TRUE, FALSE} ELSE {a}, y \in IF Border(rel, 3, R.teps) THEN {TRUE, FALSE} ELSE {b}}

Par == [opt |-> Log[run].opt, maxit |-> Log[run].maxit, maxin |-> Log[run].maxin, f |-> Log[run].f]
None == [ph |-> "none"]

Begin == /\ IsEvent("start") /\ st.ph = "none"
         /\ run' = l /\ sys' = 0
         /\ LET e == Ev IN st' = Start([opt |-> e.opt, maxit |-> e.maxit, maxin |-> e.maxin, f |-> e.f], e.init, e.lam)
Lin == /\ IsEvent("lin") /\ st.ph = "lin"
       /\ Holds(Ev.ok /\ Ev.pose = st.cur)
       /\ st' = AfterLin(st, Par, Ev.e) /\ sys' = l /\ UNCHANGED run
Trial == /\ IsEvent("err") /\ st.ph = "trial"
         /\ Holds(Ev.ok /\ Solves(Log[sys], st.lam, Ev))
         /\ \E small \in Small(Log[run], Ev.rel) : st' = AfterTrial(st, Par, Ev.pose, Ev.e, Ev.nan, small)
         /\ UNCHANGED <<run, sys>>
(* An evaluation of the error at the current pose changes nothing. *)
Recheck == IsEvent("err") /\ sys > 0 /\ Holds(Ev.ok /\ Ev.pose = st.cur) /\ UNCHANGED <<run, st, sys>>

Report(e, s) == /\ e.pose = s.cur /\ e.iters = s.last
                /\ IF sys = 0 THEN (\A i \in 1..36 : e.H[i] = 0) /\ (\A i \in 1..6 : e.b[i] = 0) /\ e.e = 0 /\ ~e.conv
                   ELSE e.H = Log[sys].H /\ e.b = Log[sys].b /\ e.e = s.e /\ e.inl = Log[sys].inl /\ e.conv = s.conv
(* Gauss-Newton shows its steps as the next linearization pose or the result. *)
StepThen(rel, pose) == {Advance(st, Par, pose, small) : small \in Small(Log[run], rel)}
StepLin == /\ IsEvent("lin") /\ st.ph = "step"
           /\ Holds(Ev.ok /\ Solves(Log[sys], st.lam, Ev))
           /\ \E s \in StepThen(Ev.rel, Ev.pose) : s.ph = "lin" /\ st' = AfterLin(s, Par, Ev.e)
           /\ sys' = l /\ UNCHANGED run
StepDone == /\ IsEvent("done") /\ st.ph = "step"
            /\ Holds(Solves(Log[sys], st.lam, Ev))
            /\ \E s \in StepThen(Ev.rel, Ev.pose) : s.ph = "over" /\ Report(Ev, s)
            /\ st' = None /\ UNCHANGED <<run, sys>>
Done == /\ IsEvent("done") /\ st.ph = "over"
        /\ Holds(Report(Ev, st))
        /\ st' = None /\ UNCHANGED <<run, sys>>
Init == l = 1 /\ run = 0 /\ st = None /\ sys = 0
Next == Begin \/ Lin \/ Trial \/ Recheck \/ StepLin \/ StepDone \/ Done \/ (End /\ st.ph = "none" /\ UNCHANGED <<run, st, sys>>)
Spec == Init /\ [][Next]_<<l, run, st, sys>>
=============================================================================

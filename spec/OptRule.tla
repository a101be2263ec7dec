--------------------------------- MODULE OptRule ---------------------------------
(* The contract of the two optimizers as a state machine over records, shared by the design model and the trace specification.
     ph     what has to happen next: "lin" (linearize at cur), "trial" (evaluate a damped step) or "over"
     cur    the current pose                  it     index of the current outer iteration      last   index of the last one begun
     tried  rejected trials of this outer iteration     lam    damping (in 1/1024)    e    total error at cur
     conv   the last accepted step was within both tolerances
   par is [opt, maxit, maxin, f]: optimizer, limits, damping factor. *)
EXTENDS Integers, Sequences

Start(par, pose, lam) ==
  [ph |-> IF par.maxit > 0 THEN "lin" ELSE "over", cur |-> pose, it |-> 0, last |-> 0, tried |-> 0, lam |-> lam, e |-> 0, conv |-> FALSE]

(* The system was linearized at cur with total error e. *)
AfterLin(st, par, e) ==
  [st EXCEPT !.e = e, !.tried = 0, !.last = st.it,
             !.ph = IF par.opt = "gn" THEN "step" ELSE IF par.maxin > 0 THEN "trial" ELSE "over"]
Advance(st, par, pose, small) ==
  [st EXCEPT !.cur = pose, !.conv = small, !.it = st.it + 1, !.ph = IF small \/ st.it + 1 >= par.maxit THEN "over" ELSE "lin"]
(* Levenberg-Marquardt: the trial pose has total error e (nan: not a number). *)
Accepts(st, e, nan) == ~nan /\ e <= st.e
AfterTrial(st, par, pose, e, nan, small) ==
  IF Accepts(st, e, nan)
  THEN [Advance(st, par, pose, small) EXCEPT !.e = e, !.lam = st.lam \div par.f]
  ELSE [st EXCEPT !.lam = st.lam * par.f, !.tried = st.tried + 1, !.ph = IF st.tried + 1 >= par.maxin THEN "over" ELSE "trial"]
=============================================================================

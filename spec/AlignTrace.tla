------------------------------- MODULE AlignTrace -------------------------------
(* scene: target points; motion: start of the source relative to the truth and the correspondence distance (in lattice units);
   run: one alignment; agree: a parallel backend next to the serial one. *)
EXTENDS TraceBase, AlignRule
VARIABLES pts, basin, moved, noisy
vars == <<l, pts, basin, moved, noisy>>
Scene == IsEvent("scene") /\ Holds(Spaced(Ev.pts)) /\ pts' = Ev.pts /\ basin' = FALSE /\ noisy' = FALSE /\ UNCHANGED moved
(* scattered points instead of copies: the result is unknown, but it is a rigid motion and the same for every backend *)
Noisy == IsEvent("noisy") /\ noisy' = TRUE /\ basin' = FALSE /\ UNCHANGED <<pts, moved>>
Motion == /\ IsEvent("motion") /\ Holds(Rotation(Ev))
          /\ basin' = Basin(pts, Ev, Ev.corr)
          /\ moved' = (Ev.t # <<0, 0, 0>> \/ \E k \in {2, 3, 4, 6, 7, 8} : Ev.M[k] # 0)
          /\ noisy' = FALSE /\ UNCHANGED pts
Run == /\ IsEvent("run")
       /\ Holds(Rigid(Ev) /\ (basin => Recovered(Ev, Len(pts)) /\ (moved => Ev.conv)))
       /\ UNCHANGED <<pts, basin, moved, noisy>>
Pair == IsEvent("agree") /\ Holds(basin \/ noisy => Agree(Ev, moved \/ noisy)) /\ UNCHANGED <<pts, basin, moved, noisy>>
Finish == End /\ UNCHANGED <<pts, basin, moved, noisy>>
Init == l = 1 /\ pts = <<>> /\ basin = FALSE /\ moved = FALSE /\ noisy = FALSE
Next == Scene \/ Noisy \/ Motion \/ Run \/ Pair \/ Finish
Spec == Init /\ [][Next]_vars
================================================================================

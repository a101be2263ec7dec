-------------------------------- MODULE PairRule --------------------------------
(* How a point factor is paired.  near: the set of nearest targets the search may answer with ({}: it finds nothing);
   adm(j): the rejector admits target j.  The pairing is the set of targets the factor may be paired with as far as can be told
   from what was observed ({}: outlier). *)
EXTENDS Integers, Sequences, FiniteSets
(* linearization reported an inlier / an outlier *)
MayAccept(near, adm(_)) == {j \in near : adm(j)}
MayReject(near, adm(_)) == near = {} \/ \E j \in near : ~adm(j)
=============================================================================

---------------------------------- MODULE MCPcl ----------------------------------
(* Design of the object: besides the logical state it keeps a tree per cloud, the covariances, and a voxel map per cloud that is
   built by the first VGICP alignment.  The invariant says that every alignment uses exactly what a fresh object would derive from
   the logical state.  Bug names a negative control. *)
EXTENDS PclRule, TLC
CONSTANTS Clouds, CovIds, Ress, Ks, Bug
VARIABLES s, tree, covs, vmap, res, used
vars == <<s, tree, covs, vmap, res, used>>
NoMap == <<0, None, 0>>
Init == s = [Fresh EXCEPT !.res = 1000, !.k = 20] /\ tree = <<0, 0>> /\ covs = <<None, None>> /\ vmap = <<NoMap, NoMap>> /\ res = 1000 /\ used = <<>>
Src == 1
Tgt == 2
Cloud(i) == IF i = Src THEN s.src ELSE s.tgt
SetCloud(i, c) ==
  /\ s' = (IF i = Src THEN SetSource(s, c, FALSE) ELSE SetTarget(s, c, FALSE))
  /\ IF Cloud(i) = c THEN UNCHANGED <<tree, covs, vmap>>
     ELSE tree' = [tree EXCEPT ![i] = c] /\ covs' = [covs EXCEPT ![i] = None] /\ vmap' = [vmap EXCEPT ![i] = NoMap]
  /\ UNCHANGED <<res, used>>
SetCovs(i, id) ==
  /\ s' = (IF i = Src THEN SetSourceCovs(s, id, TRUE) ELSE SetTargetCovs(s, id, TRUE))
  /\ IF Cloud(i) = 0 THEN UNCHANGED <<covs, vmap>>
     ELSE covs' = [covs EXCEPT ![i] = User(id)] /\ vmap' = (IF Bug = "covs" THEN vmap ELSE [vmap EXCEPT ![i] = NoMap])
  /\ UNCHANGED <<tree, res, used>>
Flip(f) == <<f[2], f[1]>>
DoSwap == s' = Swap(s) /\ tree' = Flip(tree) /\ covs' = Flip(covs) /\ vmap' = (IF Bug = "swap" THEN vmap ELSE Flip(vmap)) /\ UNCHANGED <<res, used>>
Clear(i) ==
  /\ s' = (IF i = Src THEN ClearSource(s) ELSE ClearTarget(s))
  /\ tree' = [tree EXCEPT ![i] = 0] /\ covs' = [covs EXCEPT ![i] = None] /\ vmap' = [vmap EXCEPT ![i] = NoMap]
  /\ UNCHANGED <<res, used>>
DoType(t) == s' = SetType(s, t) /\ UNCHANGED <<tree, covs, vmap, res, used>>
DoRes(r) == s' = SetRes(s, r) /\ res' = r /\ vmap' = (IF r = res \/ Bug = "res" THEN vmap ELSE <<NoMap, NoMap>>) /\ UNCHANGED <<tree, covs, used>>
DoK(k) == s' = SetK(s, k) /\ UNCHANGED <<tree, covs, vmap, res, used>>
Align ==
  /\ CanAlign(s)
  /\ s' = Aligned(s)
  /\ LET cov(i) == IF covs[i] = None THEN Est(s.k) ELSE covs[i]
         map(i) == IF s.type = "GICP" \/ vmap[i] # NoMap THEN vmap[i] ELSE <<Cloud(i), cov(i), res>>
     IN /\ covs' = <<cov(1), cov(2)>> /\ vmap' = <<map(1), map(2)>>
        /\ used' = IF s.type = "GICP" THEN <<s.src, cov(1), tree[2], s.tgt, cov(2)>> ELSE <<s.src, cov(1), map(2)>>
  /\ UNCHANGED <<tree, res>>
Next ==
  (\/ \E i \in 1..2, c \in Clouds : SetCloud(i, c)
   \/ \E i \in 1..2, c \in CovIds : SetCovs(i, c)
   \/ DoSwap \/ Align
   \/ \E i \in 1..2 : Clear(i)
   \/ \E t \in {"GICP", "VGICP"} : DoType(t)
   \/ \E r \in Ress : DoRes(r)
   \/ \E k \in Ks : DoK(k))
Spec == Init /\ [][Next]_vars
(* what a fresh object would use *)
Want(t) == IF t.type = "GICP" THEN <<t.src, t.sc, t.tgt, t.tgt, t.tc>> ELSE <<t.src, t.sc, <<t.tgt, t.tc, t.res>>>>
NothingLeaks == [][used' # used => used' = Want(s')]_vars
AllFresh == /\ \A i \in 1..2 : tree[i] = Cloud(i) /\ covs[i] = (IF i = 1 THEN s.sc ELSE s.tc)
            /\ res = s.res
            /\ \A i \in 1..2 : vmap[i] # NoMap => vmap[i] = <<Cloud(i), covs[i], res>>
Small == {1, 2}
================================================================================

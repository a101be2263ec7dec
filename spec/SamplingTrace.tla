----------------------------- MODULE SamplingTrace -----------------------------
(* Traces of voxel-grid downsampling:
     vg : cells [v, l], n (number of input points), outs [v, parts], serial, w (every output has a fourth component of one) *)
EXTENDS TraceBase, VoxelSum
Sample ==
  /\ IsEvent("vg")
  /\ Holds(LET e == Ev IN e.w /\ Downsampled(e.cells, e.outs, e.n, IF e.serial THEN 0 ELSE 1))
Init == l = 1
Next == Sample \/ End
Spec == Init /\ [][Next]_l
===============================================================================

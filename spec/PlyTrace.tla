--------------------------------- MODULE PlyTrace --------------------------------
(* write: a file of the given kind is written, by the library (kind "pts") or by the driver; read: what came back. *)
EXTENDS TraceBase, PlyRule
CONSTANT Strict
VARIABLE f
Write == IsEvent("write") /\ f' = Ev
ReadOk == \/ Ev.points = Expected(f.kind, f.n, f.v)
          \/ ~Strict /\ f.kind \in {"ply", "upper", "comment"} /\ f.s > 4 /\ Ev.points = FixedStride(f.n, f.s, f.v)
Read == IsEvent("read") /\ Holds(f # <<>> /\ ReadOk) /\ f' = <<>>
Init == l = 1 /\ f = <<>>
Next == Write \/ Read \/ (End /\ UNCHANGED f)
Spec == Init /\ [][Next]_<<l, f>>
================================================================================

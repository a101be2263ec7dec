-------------------------------- MODULE RegTrace --------------------------------
(* Histories of registration objects.
     new: o, s (its default settings)   set: o, f, v   copy: o, from
     align: o, ref (settings of the reference run), sure (the backend sums in a fixed order), key (which inputs), ans (digest of the
            result), kept (the object's settings and the clouds are what they were), diff (largest differences to the reference run)
   With a fixed order of summation equal settings and inputs give equal results, whatever happened in between; otherwise results agree
   up to rounding. *)
EXTENDS TraceBase, RegRule
VARIABLES objs, rec
Close(d) == d.pose <= 100 /\ d.hess <= 1000 /\ d.inl
New == IsEvent("new") /\ objs' = NewObj(objs, Ev.o, Ev.s) /\ UNCHANGED rec
Set == IsEvent("set") /\ Holds(Ev.f \in Fields) /\ objs' = SetField(objs, Ev.o, Ev.f, Ev.v) /\ UNCHANGED rec
Copy == IsEvent("copy") /\ objs' = CopyObj(objs, Ev.o, Ev.from) /\ UNCHANGED rec
(* threads and verbosity are not part of what decides a result *)
Decides(s) == [s EXCEPT !.threads = 0, !.verbose = FALSE]
Align == /\ IsEvent("align")
         /\ LET e == Ev k == <<Decides(objs[e.o]), e.key>> IN
            /\ Holds(/\ e.kept /\ e.ref = objs[e.o]
                     /\ IF e.sure THEN e.diff.exact ELSE Close(e.diff)
                     /\ (e.sure /\ k \in DOMAIN rec => rec[k] = e.ans))
            /\ rec' = IF e.sure /\ k \notin DOMAIN rec THEN (k :> e.ans) @@ rec ELSE rec
         /\ UNCHANGED objs
Start == IsEvent("session") /\ objs' = <<>> /\ rec' = <<>>
Init == l = 1 /\ objs = <<>> /\ rec = <<>>
Next == Start \/ New \/ Set \/ Copy \/ Align \/ (End /\ UNCHANGED <<objs, rec>>)
Spec == Init /\ [][Next]_<<l, objs, rec>>
================================================================================

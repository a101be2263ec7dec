--------------------------------- MODULE MCReg ---------------------------------
(* Design of align(): a vector of factors is made from the object's factor setting, one per source point, every iteration pairs each
   factor with a target point, and the result is a function of settings and arguments.  What must not happen is named by Bug:
     "keep"    the vector is kept between calls (factors made with earlier settings stay)
     "static"  one vector is shared by all objects and not made anew when its size fits
     "write"   an alignment changes the object (adaptive damping is written back)
     "alias"   a copy shares the settings of its original *)
EXTENDS RegRule, FiniteSets
CONSTANTS Objs, Values, Sizes, Bug
VARIABLES objs,     \* prescribed: settings (width and lam stand for all) per object
          mem,      \* settings in memory: object -> cell, cell -> settings
          cell, pool, shared, used, want
vars == <<objs, mem, cell, pool, shared, used, want>>
Default == [width |-> 1, lam |-> 1]
Init == /\ objs = [o \in Objs |-> Default] /\ mem = [o \in Objs |-> Default] /\ cell = [o \in Objs |-> o]
        /\ pool = [o \in Objs |-> <<>>] /\ shared = <<>> /\ used = <<>> /\ want = <<>>
Set(o, f, v) == /\ objs' = SetField(objs, o, f, v) /\ mem' = [mem EXCEPT ![cell[o]][f] = v] /\ UNCHANGED <<cell, pool, shared, used, want>>
Copy(o, p) == /\ o # p /\ objs' = CopyObj(objs, o, p)
              /\ IF Bug = "alias" THEN cell' = [cell EXCEPT ![o] = cell[p]] /\ UNCHANGED mem
                 ELSE mem' = [mem EXCEPT ![cell[o]] = mem[cell[p]]] /\ UNCHANGED cell
              /\ pool' = [pool EXCEPT ![o] = pool[p]] /\ UNCHANGED <<shared, used, want>>
Fresh(n, s) == [i \in 1..n |-> s.width]
Resize(v, n, s) == [i \in 1..n |-> IF i <= Len(v) THEN v[i] ELSE s.width]
Align(o, n) ==
  LET s == mem[cell[o]]
      fs == CASE Bug = "keep" -> Resize(pool[o], n, s)
              [] Bug = "static" -> (IF Len(shared) = n THEN shared ELSE Fresh(n, s))
              [] OTHER -> Fresh(n, s)
  IN /\ used' = <<o, n, fs, s.lam>>
     /\ want' = <<o, n, Fresh(n, objs[o]), objs[o].lam>>
     /\ pool' = [pool EXCEPT ![o] = fs] /\ shared' = fs
     /\ mem' = IF Bug = "write" THEN [mem EXCEPT ![cell[o]].lam = 3 - s.lam] ELSE mem
     /\ UNCHANGED <<objs, cell>>
Next == (\E o \in Objs : (\E f \in {"width", "lam"}, v \in Values : Set(o, f, v)) \/ (\E p \in Objs : Copy(o, p)) \/ (\E n \in Sizes : Align(o, n)))
Spec == Init /\ [][Next]_vars
OnlySettingsDecide == used = want
Untouched == \A o \in Objs : mem[cell[o]] = objs[o]
================================================================================

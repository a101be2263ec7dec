-------------------------------- MODULE RegRule --------------------------------
(* Registration objects: what the user has set, and nothing else, decides an alignment.  An object is a record of settings:
     width   kernel width (1/1000)             corr    correspondence distance (1/1000)
     iters   iterations                        eps, reps  tolerances (1/1000000)
     lam     damping (1/1000000)               dlam, mask stiffness and mask (bits) of the degree-of-freedom restriction
     threads, verbose
   Objects are values: a copy starts with the settings of the original and neither notices what happens to the other. *)
EXTENDS Integers, Sequences, TLC
Fields == {"width", "corr", "iters", "eps", "reps", "lam", "dlam", "mask", "threads", "verbose"}
NewObj(objs, o, defaults) == (o :> defaults) @@ objs
SetField(objs, o, f, v) == [objs EXCEPT ![o] = [@ EXCEPT ![f] = v]]
CopyObj(objs, o, from) == (o :> objs[from]) @@ objs
================================================================================

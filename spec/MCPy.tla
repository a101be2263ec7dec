---------------------------------- MODULE MCPy -----------------------------------
(* Design of the binding layer: an array is memory with an offset and two strides; a call checks the shape, copies the rows out of the
   memory, binds the arguments (by name or by position) to the parameters of a setting, and the stages read the setting one by one.
   The caller may overwrite its array at any moment after the call that took it.  Invariant: whatever the layout, the way of passing
   and the moment of overwriting, the stages executed are those of the plan, on the rows that were given; a bad shape is refused.
   Bugs: "swap" two positional parameters are exchanged, "contig" the strides are ignored, "skip" the shape is not checked,
   "late" the rows are read when they are needed. *)
EXTENDS PyRule, TLC
CONSTANTS Bug
VARIABLES c, mem, cloud, slots, pc, done
vars == <<c, mem, cloud, slots, pc, done>>
N == 2
Value(i, j) == 10 * i + j                                     \* row i, column j, from 0
Off(y, k) == CASE y = "c" -> 0 [] y = "f" -> 0 [] y = "reversed" -> N * k - 1 [] y = "wide" -> 1
Sr(y, k) == CASE y = "c" -> k [] y = "f" -> 1 [] y = "reversed" -> -k [] y = "wide" -> k + 2
Sc(y, k) == CASE y = "c" -> 1 [] y = "f" -> N [] y = "reversed" -> -1 [] y = "wide" -> 1
At(y, k, i, j) == Off(y, k) + i * Sr(y, k) + j * Sc(y, k)
Size == N * 8
Memory(y, k) == [a \in 0..Size-1 |-> IF \E i \in 0..N-1, j \in 0..k-1 : At(y, k, i, j) = a
                                    THEN LET p == CHOOSE p \in (0..N-1) \X (0..k-1) : At(y, k, p[1], p[2]) = a IN Value(p[1], p[2]) ELSE -1]
Read(m, y, k) == [i \in 0..N-1 |-> [j \in 0..2 |-> m[IF Bug = "contig" THEN i * k + j ELSE At(y, k, i, j)]]]
Rows == [i \in 0..N-1 |-> [j \in 0..2 |-> Value(i, j)]]
ParamOrder == <<"init", "vox", "res", "dist", "iters", "reps", "teps">>
Position(i) == IF Bug = "swap" THEN (CASE i = 6 -> 7 [] i = 7 -> 6 [] OTHER -> i) ELSE i
Sessions == {[src |-> s[1], feats |-> IF s[1] = "raw" THEN <<>> ELSE h, use |-> s[2], dev |-> d, lay |-> y, cols |-> k, n |-> N, thr |-> 1, mode |-> m, type |-> t, query |-> 5] :
             s \in {<<"cloud", "none">>, <<"preA", "none">>, <<"raw", "raw">>, <<"preC", "map">>, <<"preC", "notree">>}, h \in {<<[which |-> "covs", k |-> 0, tree |-> TRUE]>>},
             d \in {0} \cup {2^i : i \in 0..7} \cup {2^i + 2^(i + 1) : i \in 0..6}, y \in {"c", "f", "reversed", "wide"}, k \in {2, 4}, m \in {"kw", "pos"}, t \in {"VGICP", "none"}}
Init == /\ c \in Sessions
        /\ mem = Memory(c.lay, c.cols) /\ cloud = <<>> /\ slots = <<>> /\ pc = "take" /\ done = <<>>
Take == /\ pc = "take"
        /\ IF BadShape(c) /\ Bug # "skip" THEN pc' = "refused" /\ UNCHANGED <<cloud>>
           ELSE pc' = "bind" /\ cloud' = (IF BadShape(c) \/ Bug = "late" THEN <<>> ELSE Read(mem, c.lay, c.cols))
        /\ UNCHANGED <<c, mem, slots, done>>
Bind == /\ pc = "bind" /\ pc' = "src"
        /\ slots' = [k \in {Keys[i] : i \in 1..Len(Keys)} |->
             IF c.mode = "pos" /\ \E i \in 1..Len(ParamOrder) : ParamOrder[i] = k
             THEN Arg(c, ParamOrder[Position(CHOOSE i \in 1..Len(ParamOrder) : ParamOrder[i] = k)])
             ELSE Arg(c, k)]
        /\ UNCHANGED <<c, mem, cloud, done>>
Scribble == pc \notin {"take"} /\ mem # [a \in 0..Size-1 |-> -2] /\ mem' = [a \in 0..Size-1 |-> -2] /\ UNCHANGED <<c, cloud, slots, pc, done>>
Do(st) == done' = done \o st
Needs == IF Bug = "late" /\ cloud = <<>> THEN cloud' = Read(mem, c.lay, c.cols) ELSE UNCHANGED cloud
Source == /\ pc = "src" /\ pc' = "feat" /\ Needs
          /\ Do(CASE c.src = "cloud" -> <<>> [] c.src \in {"preA", "preC"} -> <<Down(slots["res"]), Feat("both", slots["pk"])>> [] OTHER -> <<Down(slots["res"]), Feat("both", 10)>>)
          /\ UNCHANGED <<c, mem, slots>>
Estimate == /\ pc = "feat" /\ pc' = "use" /\ Do([i \in 1..Len(c.feats) |-> Feat(c.feats[i].which, IF c.feats[i].k = 0 THEN 20 ELSE c.feats[i].k)]) /\ UNCHANGED <<c, mem, cloud, slots>>
Use == /\ pc = "use"
       /\ IF BadType(c) THEN pc' = "neutral" /\ UNCHANGED done
          ELSE /\ pc' = "end"
               /\ Do((IF c.use = "map" \/ (c.use = "raw" /\ c.type = "VGICP") THEN <<Map(slots["vox"])>> ELSE <<>>)
                     \o (IF c.use = "none" THEN <<>> ELSE
                         <<<<"reg", IF c.use = "map" THEN "VGICP" ELSE c.type, slots["dist"], slots["iters"], slots["reps"], slots["teps"], slots["init"]>>>>))
       /\ UNCHANGED <<c, mem, cloud, slots>>
Next == Take \/ Bind \/ Scribble \/ Source \/ Estimate \/ Use
Spec == Init /\ [][Next]_vars
AsPlanned == /\ (pc \in {"src", "feat", "use", "end", "neutral"} => ~BadShape(c))
             /\ (pc \in {"feat", "use", "end", "neutral"} => cloud = Rows)
             /\ (pc = "end" => done = Plan(c) /\ ~BadType(c))
             /\ (pc = "refused" => Observations(c) = <<"refused">>)
             /\ (pc = "neutral" => "refused" = Observations(c)[Len(Observations(c))])
================================================================================

--------------------------------- MODULE PyRule ----------------------------------
(* What a Python session has to amount to: the sequence of C++ stages, with the parameters of every stage, as a function of the calls
   and of the keywords they were given; which observations follow; and what happens to arguments of a wrong shape or type.
   A session c: src   how the two clouds come into being from arrays      ("cloud", "sampleA", "sampleC", "preA", "preC"; "treeA" is a tree straight from an array, "raw" stands for the arrays themselves)
                feats the in-place estimations that follow                (sequence of [which, k, tree])
                use   what they are finally used for
                dev   the keywords that are given (the others keep their documented defaults)
                lay, cols, n, thr, mode   memory layout, columns and rows of the arrays, number of threads, how arguments are passed
                type, query               registration type, and number of neighbours *)
EXTENDS Integers, Sequences, FiniteSets
Keys == <<"res", "pk", "vox", "dist", "iters", "reps", "teps", "init", "lruh", "lruc">>
Has(c, k) == (c.dev \div 2^((CHOOSE i \in 1..Len(Keys) : Keys[i] = k) - 1)) % 2 = 1
(* defaults: millimetres, neighbours, millimetres, millimetres, iterations, 0.001 degrees, micrometres, index of the initial guess *)
Default(k) == CASE k = "res" -> 250 [] k = "pk" -> 10 [] k = "vox" -> 1000 [] k = "dist" -> 1000 [] k = "iters" -> 20
                [] k = "reps" -> 100 [] k = "teps" -> 1000 [] k = "init" -> 0 [] k = "lruh" -> 100 [] k = "lruc" -> 10
Given(k) == CASE k = "res" -> 420 [] k = "pk" -> 17 [] k = "vox" -> 600 [] k = "dist" -> 180 [] k = "iters" -> 3
              [] k = "reps" -> 3 [] k = "teps" -> 20 [] k = "init" -> 1 [] k = "lruh" -> 0 [] k = "lruc" -> 2
Arg(c, k) == IF Has(c, k) THEN Given(k) ELSE Default(k)

Down(res) == <<"down", res>>
Feat(which, k) == <<"feat", which, k>>
Map(res) == <<"map", res>>
Reg(c) == <<"reg", c.type, Arg(c, "dist"), Arg(c, "iters"), Arg(c, "reps"), Arg(c, "teps"), Arg(c, "init")>>
SrcPlan(c) == CASE c.src \in {"cloud", "treeA"} -> <<>>
                [] c.src \in {"sampleA", "sampleC"} -> <<Down(Arg(c, "res"))>>
                [] c.src \in {"preA", "preC"} -> <<Down(Arg(c, "res")), Feat("both", Arg(c, "pk"))>>
                [] c.src = "raw" -> <<Down(Arg(c, "res")), Feat("both", 10)>>
K(f) == IF f.k = 0 THEN 20 ELSE f.k      \* documented default of the in-place estimations
FeatPlan(c) == [i \in 1..Len(c.feats) |-> Feat(c.feats[i].which, K(c.feats[i]))]
Maps == {"voxP", "voxN", "voxC", "voxNC", "voxG"}
Queries == {"nn", "knn", "batchnn", "batchknn"}
UsePlan(c) ==
  CASE c.use = "none" -> <<>>
    [] c.use \in Queries -> <<<<"query", IF c.use \in {"nn", "batchnn"} THEN 1 ELSE c.query>>>>
    [] c.use \in Maps -> <<<<"vox", c.use, Arg(c, "vox"), Arg(c, "lruh"), Arg(c, "lruc"), Arg(c, "init")>>>>
    [] c.use = "factor" -> <<<<"lin", c.type, Arg(c, "dist"), Arg(c, "init")>>>>
    [] c.use \in {"tree", "notree"} -> <<Reg(c)>>
    [] c.use = "map" -> <<Map(Arg(c, "vox")), Reg([c EXCEPT !.type = "VGICP"])>>
    [] c.use = "raw" -> (IF c.type = "VGICP" THEN <<Map(Arg(c, "vox"))>> ELSE <<>>) \o <<Reg(c)>>
Plan(c) == SrcPlan(c) \o FeatPlan(c) \o UsePlan(c)

(* refusals *)
BadShape(c) == c.cols \notin {3, 4}
BadType(c) == c.use \in {"tree", "notree", "raw"} /\ c.type \notin ({"ICP", "PLANE_ICP", "GICP"} \cup (IF c.use = "raw" THEN {"VGICP"} ELSE {}))
Refusal(c) == CASE c.use = "raw" -> "neutral" [] c.src = "cloud" /\ c.use = "none" -> "empty" [] c.src = "sampleA" -> "none" [] c.src = "preA" -> "nones"
                [] OTHER -> "error"
(* what is observed, in order: the clouds once they are ready, then the use *)
Observations(c) == IF BadShape(c) \/ (c.use = "raw" /\ BadType(c)) THEN <<"refused">>
                   ELSE (IF c.src \in {"raw", "treeA"} THEN <<>> ELSE <<"cloud">>) \o
                        (IF BadType(c) THEN <<"refused">> ELSE IF c.use = "none" THEN <<>> ELSE
                         IF c.use \in Queries THEN <<"query">> ELSE IF c.use \in Maps THEN <<"vox">> ELSE IF c.use = "factor" THEN <<"lin">> ELSE <<"reg">>)
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Abs(a[i] - b[i]) <= 20
NearAll(g, w) == Len(g) = Len(w) /\ \A i \in 1..Len(g) : Near(g[i], w[i])
================================================================================

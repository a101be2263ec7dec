---------------------------------- MODULE GenPy ----------------------------------
(* Python sessions: every entry point with every layout, column count and thread count; with every set of at most MaxDev keywords,
   given by name or by position; every short history of in-place estimations; every refusal; tiny arrays. *)
EXTENDS PyRule, SequencesExt, Json, IOUtils, TLC
CONSTANTS MaxDev, MaxFeats, Threads, Layouts
VARIABLE x
Bit(k) == 2^((CHOOSE i \in 1..Len(Keys) : Keys[i] = k) - 1)
RECURSIVE Mask(_)
Mask(S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN Bit(k) + Mask(S \ {k})
Devs(S) == {Mask(D) : D \in {D \in SUBSET S : Cardinality(D) <= MaxDev}}
R(src, feats, use) == [src |-> src, feats |-> feats, use |-> use, dev |-> 0, lay |-> "c", cols |-> 3, n |-> 900, thr |-> 1, mode |-> "kw", type |-> "GICP", query |-> 5]
F(w, k, t) == [which |-> w, k |-> k, tree |-> t]
Both == <<F("both", 0, TRUE)>>
ThreeTypes == {"ICP", "PLANE_ICP", "GICP"}
Srcs == {R("cloud", Both, "none"), R("sampleA", Both, "none"), R("sampleC", Both, "none"), R("preA", <<>>, "none"), R("preC", <<>>, "none")}
Raws == {[R("raw", <<>>, "raw") EXCEPT !.type = t] : t \in ThreeTypes \cup {"VGICP"}}
Asks == {[R(s, <<>>, u) EXCEPT !.query = q] : s \in {"cloud", "treeA"}, u \in Queries, q \in {5, 13}}
Trees == {[R("preC", <<>>, u) EXCEPT !.type = t] : u \in {"tree", "notree"}, t \in ThreeTypes}
MapUse == {R("preC", <<>>, "map")}
Voxes == {R("cloud", Both, u) : u \in Maps}
Lins == {[R("preA", <<>>, "factor") EXCEPT !.type = t] : t \in ThreeTypes}
Entries == Srcs \cup Raws \cup Asks \cup Trees \cup MapUse \cup Voxes \cup Lins
RegKeys == {"dist", "iters", "reps", "teps", "init"}
KeysOf(r) == (CASE r.src \in {"sampleA", "sampleC"} -> {"res"} [] r.src \in {"preA", "preC"} -> {"res", "pk"} [] r.src = "raw" -> {"res"} [] OTHER -> {}) \cup
             (CASE r.use = "raw" -> RegKeys \cup {"vox"} [] r.use \in {"tree", "notree"} -> RegKeys [] r.use = "map" -> RegKeys \cup {"vox"}
                [] r.use = "factor" -> {"dist", "init"} [] r.use \in Maps -> {"vox", "init", "lruh", "lruc"} [] OTHER -> {})
Shapes == {[r EXCEPT !.lay = y, !.cols = k, !.thr = t, !.mode = "kw"] : r \in Entries, y \in Layouts, k \in {3, 4}, t \in Threads}
Keywords == UNION {{[r EXCEPT !.dev = d, !.mode = m, !.thr = IF m = "kw" THEN 1 ELSE 2, !.cols = IF d % 3 = 0 THEN 4 ELSE 3] : d \in Devs(KeysOf(r)), m \in {"kw", "pos"}} : r \in Entries}
Steps == {F(w, k, t) : w \in {"normals", "covs", "both"}, k \in {0, 7}, t \in BOOLEAN}
Hists == UNION {[1..m -> Steps] : m \in 0..MaxFeats}
Provides(r, which) == r.src = "preC" \/ \E i \in 1..Len(r.feats) : r.feats[i].which \in {which, "both"}
Histories == {[R(s, h, u) EXCEPT !.type = IF u = "none" THEN "GICP" ELSE y] : s \in {"cloud", "sampleC", "preC"}, h \in Hists, u \in {"none", "notree"}, y \in {"PLANE_ICP", "GICP"}}
Needed(r) == r.use = "notree" => Provides(r, IF r.type = "GICP" THEN "covs" ELSE "normals")
Refusals == {[r EXCEPT !.cols = k] : r \in {R("cloud", <<>>, "none"), R("sampleA", <<>>, "none"), R("preA", <<>>, "none"), R("raw", <<>>, "raw"), R("treeA", <<>>, "nn"),
                                            R("cloud", <<>>, "batchnn"), R("cloud", <<>>, "batchknn")}, k \in {1, 2, 5, 6}}
            \cup {[r EXCEPT !.type = y] : r \in {R("raw", <<>>, "raw"), R("preC", <<>>, "tree"), R("preC", <<>>, "notree")}, y \in {"VGICP", "gicp", "", "GICP ", "PLANE"}}
Tiny == {[r EXCEPT !.n = n, !.cols = k] : r \in Srcs \cup Asks, n \in {0, 1, 3, 6}, k \in {3, 4}}
Big == {[r EXCEPT !.n = 5000, !.thr = t] : r \in {q \in Srcs : q.src = "cloud"} \cup Asks, t \in Threads}
Sound(r) == (r.lay = "int" => r.src \in {"cloud", "treeA"} /\ r.use \in Queries \cup {"none"}) /\ ~(r.src = "preC" /\ r.n = 0)
All == {r \in Shapes \cup Keywords \cup {r \in Histories : Needed(r)} \cup Refusals \cup Tiny \cup Big : Sound(r)}
Write == LET S == SetToSeq({[c |-> r, plan |-> Plan(r)] : r \in All}) IN ndJsonSerialize(IOEnv.GEN, S)
Init == x = 0 /\ Write
Next == FALSE /\ x' = x
Spec == Init /\ [][Next]_x
================================================================================

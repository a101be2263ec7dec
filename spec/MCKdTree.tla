------------------------------ MODULE MCKdTree ------------------------------
(* Finite instances of KdTree. *)
EXTENDS KdTree
Pos3 == {<<0,0,0>>, <<1,0,0>>, <<2,1,0>>}
Pos2 == {<<0,0,0>>, <<2,1,0>>}
Qry == {<<0,0,0>>, <<1,1,0>>, <<3,-1,0>>}
Sym == Permutations({1})
=============================================================================

--------------------------------- MODULE ProjRule ---------------------------------
(* The geometry of the projective search: which cells belong to the window around a query, and, for some image sizes, which cell a
   lattice point falls into under the equirectangular projection, decided without trigonometry. *)
EXTENDS Integers, Sequences, FiniteSets
Hits(x, c, n, w, mode) == IF mode = "repeat" THEN \E d \in -w..w : (x + d - c) % n = 0 ELSE c \in (x - w)..(x + w)
Line(x, n, w, mode) == {c \in 0..n-1 : Hits(x, c, n, w, mode)}
Window(u, v, W, H, h, s, mh, mv) == Line(u, W, h, mh) \X Line(v, H, s, mv)
Inside(u, v, W, H) == u \in 0..W-1 /\ v \in 0..H-1
(* column borders: directions <<x, z>> (times anything positive) at -pi + 2 pi c / W *)
Border(W, c) ==
  LET e == [c8 \in 0..8 |-> <<<<0, -1>>, <<-1, -1>>, <<-1, 0>>, <<-1, 1>>, <<0, 1>>, <<1, 1>>, <<1, 0>>, <<1, -1>>, <<0, -1>>>>[c8 + 1]]
  IN e[(8 \div W) * c]
Cross(a, b) == a[1] * b[2] - a[2] * b[1]      \* positive if a is further round (x towards, z away) than b
InColumn(p, W, c) == LET q == <<p[1], p[3]>> IN Cross(q, Border(W, c)) >= 0 /\ Cross(Border(W, c + 1), q) >= 0
Norm2(p) == p[1] * p[1] + p[2] * p[2] + p[3] * p[3]
(* sin^2 of the latitude at the border below the j-th row above the equator, as a fraction *)
Sin2(H, j) == CASE j = 0 -> <<0, 1>>
                [] H = 2 /\ j = 1 -> <<1, 1>>
                [] H = 4 /\ j = 1 -> <<1, 2>> [] H = 4 /\ j = 2 -> <<1, 1>>
                [] H = 6 /\ j = 1 -> <<1, 4>> [] H = 6 /\ j = 2 -> <<3, 4>> [] H = 6 /\ j = 3 -> <<1, 1>>
Between(p, H, j) == p[2] * p[2] * Sin2(H, j)[2] >= Norm2(p) * Sin2(H, j)[1] /\ p[2] * p[2] * Sin2(H, j + 1)[2] <= Norm2(p) * Sin2(H, j + 1)[1]
(* row 0 is the top (positive second coordinate) *)
InRow(p, H, r) == IF r < H \div 2 THEN p[2] >= 0 /\ Between(p, H, H \div 2 - 1 - r) ELSE p[2] <= 0 /\ Between(p, H, r - H \div 2)
Decidable(W, H) == W \in {4, 8} /\ H \in {2, 4, 6}
InCell(p, W, H, u, v) == InColumn(p, W, u) /\ InRow(p, H, v)
================================================================================

---------------------------------- MODULE MCProj ----------------------------------
(* Design of the window scan: offsets are visited one by one, wrapped or discarded, and skipped when the cell is also reached without
   wrapping (the window is larger than the image).  Every cell of the window, and no other, is visited exactly once.
   Negative control: without the skip, cells are visited twice.  Also: every lattice direction falls into a cell. *)
EXTENDS ProjRule, TLC
CONSTANTS MaxW, MaxWin, Skip, Coords
VARIABLES W, H, u, v, h, s, mh, mv, du, dv, seen
vars == <<W, H, u, v, h, s, mh, mv, du, dv, seen>>
Modes == {"repeat", "clamp"}
Init == /\ W \in 1..MaxW /\ H \in 1..3 /\ u \in 0..W-1 /\ v \in 0..H-1 /\ h \in 0..MaxWin /\ s \in 0..3 /\ mh \in Modes /\ mv \in Modes
        /\ dv = -s /\ du = -h /\ seen = <<>>
Wrap(x, n, m) == IF m = "clamp" THEN x ELSE IF x < 0 THEN x + n ELSE IF x >= n THEN x - n ELSE x
Ok(x, d, n, w, m) == LET c == Wrap(x + d, n, m) IN c \in 0..n-1 /\ (Skip /\ c # x + d => ~(c - x \in -w..w))
Bump(q) == [z \in DOMAIN seen \cup {q} |-> IF z = q THEN (IF q \in DOMAIN seen THEN seen[q] + 1 ELSE 1) ELSE seen[z]]
Visit == seen' = IF Ok(v, dv, H, s, mv) /\ Ok(u, du, W, h, mh) THEN Bump(<<Wrap(u + du, W, mh), Wrap(v + dv, H, mv)>>) ELSE seen
Next == /\ dv <= s
        /\ Visit
        /\ IF du < h THEN du' = du + 1 /\ dv' = dv ELSE du' = -h /\ dv' = dv + 1
        /\ UNCHANGED <<W, H, u, v, h, s, mh, mv>>
Spec == Init /\ [][Next]_vars
Once == dv > s => DOMAIN seen = Window(u, v, W, H, h, s, mh, mv) /\ \A c \in DOMAIN seen : seen[c] = 1
Points == {p \in [1..3 -> Coords] : p # [a \in 1..3 |-> 0]}
Tile == \A w \in {4, 8}, r \in {2, 4, 6} : \A p \in Points : \E c \in 0..w-1, d \in 0..r-1 : InCell(p, w, r, c, d)
(* two cells only on a common border *)
Disjoint == \A w \in {4, 8} : \A p \in Points : (p[1] # 0 \/ p[3] # 0) /\ (\A c \in 0..w-1 : Cross(<<p[1], p[3]>>, Border(w, c)) # 0) => Cardinality({c \in 0..w-1 : InColumn(p, w, c)}) = 1
ASSUME Tile /\ Disjoint
C3 == -2..2
================================================================================

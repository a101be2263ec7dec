-------------------------------- MODULE PairTrace --------------------------------
(* Histories of point factors on integer clouds.
     world : fac, tree, tgt, src, ax (axis and sign of each target normal), cov/scov (isotropic covariances), ban
     lin   : f, i (source index), R, t, maxd4 (4 * admissible squared distance, -1: any), ban (the banned targets are rejected),
             ans (scripted answer of the search: found, index, squared distance), ret, inl, e (32 * error), ok
     err   : f, R, t, inl, e
   pair[f]: targets factor f may be paired with; idx[f]: its source point. *)
EXTENDS TraceBase, PairRule
VARIABLES w, pair, src
W == Log[w]
Sq(x) == x * x
Moved(p, R, t) == [a \in 1..3 |-> R[3 * (a - 1) + 1] * p[1] + R[3 * (a - 1) + 2] * p[2] + R[3 * (a - 1) + 3] * p[3] + t[a]]
D2(p, q) == Sq(p[1] - q[1]) + Sq(p[2] - q[2]) + Sq(p[3] - q[3])
Abs(a) == IF a < 0 THEN -a ELSE a
L1(p, q) == Abs(p[1] - q[1]) + Abs(p[2] - q[2]) + Abs(p[3] - q[3])
Linf(p, q) == LET m(a, b) == IF a > b THEN a ELSE b IN m(Abs(p[1] - q[1]), m(Abs(p[2] - q[2]), Abs(p[3] - q[3])))
InCell(x) == \A a \in 1..3 : x[a] >= 0 /\ x[a] < 64
(* the targets a search at x considers *)
Cands(x) == LET n == DOMAIN W.tgt IN
  CASE W.tree = "all" -> n
    [] W.tree = "cell64" -> IF InCell(x) THEN n ELSE {}
    [] W.tree = "unit27" -> {j \in n : Linf(W.tgt[j], x) <= 1}
    [] W.tree = "unit7" -> {j \in n : L1(W.tgt[j], x) <= 1}
    [] W.tree = "unit1" -> {j \in n : W.tgt[j] = x}
Nearest(x) == LET c == Cands(x) IN {j \in c : \A k \in c : D2(W.tgt[j], x) <= D2(W.tgt[k], x)}
(* 32 times the error of source i against target j *)
E32(j, i, x) == LET q == W.tgt[j] IN
  CASE W.fac = "icp" -> 16 * D2(q, x)
    [] W.fac = "plane" -> 16 * Sq(q[Abs(W.ax[j])] - x[Abs(W.ax[j])])
    [] W.fac = "gicp" -> (16 * D2(q, x)) \div (W.cov[j] + W.scov[i])
Banned(e, j) == e.ban /\ \E k \in DOMAIN W.ban : W.ban[k] = j - 1

World == /\ IsEvent("world") /\ w' = l /\ pair' = [f \in 0..2 |-> {}] /\ src' = [f \in 0..2 |-> 1]
(* the pairings a linearization may have ended with *)
After(e) ==
  LET x == Moved(W.src[e.i + 1], e.R, e.t)
      near == IF e.ans = <<>> THEN Nearest(x) ELSE IF e.ans[1] = 1 THEN {e.ans[2] + 1} ELSE {}
      dist(j) == IF e.ans = <<>> THEN D2(W.tgt[j], x) ELSE e.ans[3]
      adm(j) == (e.maxd4 < 0 \/ 4 * dist(j) <= e.maxd4) /\ ~Banned(e, j)
  IN IF e.ret THEN {j \in MayAccept(near, adm) : E32(j, e.i + 1, x) = e.e} ELSE IF MayReject(near, adm) THEN {} ELSE {-1}
Lin == /\ IsEvent("lin") /\ w > 0
       /\ LET S == After(Ev) IN
            /\ Holds(Ev.ok /\ Ev.inl = Ev.ret /\ S # {-1} /\ (Ev.ret <=> S # {}))
            /\ pair' = [pair EXCEPT ![Ev.f] = S]
       /\ src' = [src EXCEPT ![Ev.f] = Ev.i + 1] /\ UNCHANGED w
Err == /\ IsEvent("err") /\ w > 0
       /\ LET x == Moved(W.src[src[Ev.f]], Ev.R, Ev.t)
              S == {j \in pair[Ev.f] : E32(j, src[Ev.f], x) = Ev.e} IN
            /\ Holds(IF pair[Ev.f] = {} THEN Ev.e = 0 /\ ~Ev.inl ELSE S # {} /\ Ev.inl)
            /\ pair' = [pair EXCEPT ![Ev.f] = S]
       /\ UNCHANGED <<w, src>>
Init == l = 1 /\ w = 0 /\ pair = <<>> /\ src = <<>>
Next == World \/ Lin \/ Err \/ (End /\ UNCHANGED <<w, pair, src>>)
Spec == Init /\ [][Next]_<<l, w, pair, src>>
=============================================================================

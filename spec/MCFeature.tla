-------------------------------- MODULE MCFeature --------------------------------
(* Two things are established here.
   1. The rule of FeatureRule is right: for every small set of points and every small integer direction that is an eigenvector, the
      rule accepts the direction iff no other direction has less spread (compared with all small directions and, through the
      characteristic polynomial, with the other eigenvalues).
   2. The parallel estimation: attributes are resized once, then workers claim indices, search into a scratch buffer and write the
      slot of their index.  For every interleaving every slot holds the features of its own index.  Negative controls: a scratch
      buffer shared by the workers; workers that write before the arrays are resized. *)
EXTENDS FeatureRule, FiniteSets, TLC
CONSTANTS Coords, NPts, Dirs, N, Workers, Mode
VARIABLES pts, v, pc, claimed, scratch, slots, at
vars == <<pts, v, pc, claimed, scratch, slots, at>>
Points == [V3 -> Coords]
Nothing == -1
Init == /\ pts \in [1..NPts -> Points] /\ v \in Dirs
        /\ pc = [w \in Workers |-> "free"] /\ claimed = 0 /\ scratch = [w \in Workers |-> Nothing] /\ at = [w \in Workers |-> 0]
        /\ slots = IF Mode = "late" THEN <<>> ELSE [i \in 1..N |-> Nothing]
Slot(w) == IF Mode = "shared" THEN CHOOSE u \in Workers : TRUE ELSE w
Claim(w) == /\ pc[w] = "free" /\ claimed < N /\ claimed' = claimed + 1 /\ at' = [at EXCEPT ![w] = claimed + 1]
            /\ pc' = [pc EXCEPT ![w] = "search"] /\ UNCHANGED <<pts, v, scratch, slots>>
Search(w) == /\ pc[w] = "search" /\ scratch' = [scratch EXCEPT ![Slot(w)] = at[w]] /\ pc' = [pc EXCEPT ![w] = "set"]
             /\ UNCHANGED <<pts, v, claimed, slots, at>>
(* late: the first one to write resizes, which loses concurrent writes *)
Resize(w) == /\ Mode = "late" /\ pc[w] = "set" /\ at[w] > Len(slots) /\ slots' = [i \in 1..at[w] |-> Nothing] /\ UNCHANGED <<pts, v, pc, claimed, scratch, at>>
Set(w) == /\ pc[w] = "set" /\ at[w] <= Len(slots) /\ slots' = [slots EXCEPT ![at[w]] = scratch[Slot(w)]] /\ pc' = [pc EXCEPT ![w] = "free"]
          /\ UNCHANGED <<pts, v, claimed, scratch, at>>
Next == \E w \in Workers : Claim(w) \/ Search(w) \/ Resize(w) \/ Set(w)
Spec == Init /\ [][Next]_vars
Done == claimed = N /\ \A w \in Workers : pc[w] = "free"
Filled == Done => slots = [i \in 1..N |-> i]

Norm2(d) == LET f(a) == d[a] * d[a] IN Sum3(f)
Spread(S, d) == LET f(a) == LET g(b) == d[a] * S[a][b] * d[b] IN Sum3(g) IN Sum3(f)
Proj(d) == Mat(LAMBDA a, b : d[a] * d[b])
(* with P not scaled to Q: S and P are multiplied by |d|^2 instead, which leaves the signs alone *)
Scaled(S, n) == Mat(LAMBDA a, b : n * S[a][b])
RuleIsRight ==
  \A S \in {Scatter(pts)}, q \in {Norm2(v)}, P \in {Proj(v)} : \A SS \in {Scaled(S, q)} :
  LET eigen == \A a \in V3 : LET f(b) == S[a][b] * v[b] IN q * Sum3(f) = Spread(S, v) * v[a]
  IN /\ IsProjector(P, q, 0)
     /\ IsEigen(S, P, 0) <=> eigen
     /\ eigen => /\ (Mode = "middle" \/ IsLeast(SS, Spread(S, v), 0)) => \A d \in Dirs : Spread(S, v) * Norm2(d) <= Spread(S, d) * q
                 /\ (\A d \in Dirs : Spread(S, v) * Norm2(d) <= Spread(S, d) * q) /\ ~IsLeast(SS, Spread(S, v), 0)
                       => \* only a direction outside of Dirs has less spread: the characteristic polynomial changes sign below
                          LET t == Trace3(S) m == Minors(S) l2 == Spread(S, v) IN q * q * m - 2 * l2 * q * t + 3 * l2 * l2 < 0 \/ q * t < 3 * l2
C2 == {0, 1}
C3 == {-1, 0, 1}
D1 == {d \in [V3 -> -1..1] : \E a \in V3 : d[a] # 0}
D0 == {[a \in V3 |-> 1]}
================================================================================

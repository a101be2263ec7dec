------------------------------- MODULE RandomTrace -------------------------------
(* Traces of random sampling.  Points are given by the class of their coordinates, so that equal points are interchangeable.
     cloud  : pts                 the input
     sample : gen, req, out, ok   out: classes of the drawn points in order (-1: not an input point); gen: name of the generator state
     cover  : req                 all draws of this request since the cloud was given: every subset must have occurred
   drawn remembers, per generator state and request, what was drawn, and seen the sets of (distinct) points drawn. *)
EXTENDS TraceBase
VARIABLES cur, drawn, seen
Pts == Log[cur].pts
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Elems(s) == {s[i] : i \in 1..Len(s)}
\* the second case is the definition; the first is what it comes to when the points differ from each other
SubMultiset(s, t) ==
  IF Cardinality(Elems(t)) = Len(t)
  THEN Elems(s) \subseteq Elems(t) /\ Cardinality(Elems(s)) = Len(s)
  ELSE \A x \in Elems(s) : Count(s, x) <= Count(t, x)
Min(a, b) == IF a < b THEN a ELSE b
Cloud == IsEvent("cloud") /\ cur' = l /\ drawn' = <<>> /\ seen' = {}
Sample ==
  /\ IsEvent("sample") /\ cur > 0
  /\ LET e == Ev
         key == <<e.gen, e.req>>
     IN /\ Holds(/\ e.ok
                 /\ Len(e.out) = Min(e.req, Len(Pts))
                 /\ SubMultiset(e.out, Pts)
                 /\ key \in DOMAIN drawn => drawn[key] = e.out)
        /\ drawn' = IF e.remember /\ key \notin DOMAIN drawn THEN (key :> e.out) @@ drawn ELSE drawn
        /\ seen' = IF e.collect THEN seen \cup {<<e.req, {e.out[i] : i \in 1..Len(e.out)}>>} ELSE seen
  /\ UNCHANGED cur
Cover ==
  /\ IsEvent("cover")
  /\ Holds(LET X == {Pts[i] : i \in 1..Len(Pts)} IN
           \A S \in SUBSET X : Cardinality(S) = Min(Ev.req, Len(Pts)) => <<Ev.req, S>> \in seen)
  /\ UNCHANGED <<cur, drawn, seen>>
Init == l = 1 /\ cur = 0 /\ drawn = <<>> /\ seen = {}
Next == Cloud \/ Sample \/ Cover \/ (End /\ UNCHANGED <<cur, drawn, seen>>)
Spec == Init /\ [][Next]_<<l, cur, drawn, seen>>
=============================================================================

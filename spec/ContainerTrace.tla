------------------------------ MODULE ContainerTrace -----------------------------
(* A history of writes to a container, each followed by a full read (dump); or one content in every container, and the answers of the
   algorithms (content: native answers, alg: answers with another container). *)
EXTENDS TraceBase, ContainerRule
VARIABLES s, ans
New == IsEvent("new") /\ s' = Fresh(Ev.kind) /\ UNCHANGED ans
Ctor == IsEvent("ctor") /\ s' = Construct(Ev.v) /\ UNCHANGED ans
ResizeA == IsEvent("resize") /\ s' = Resize(s, Ev.n) /\ UNCHANGED ans
UnderA == IsEvent("under") /\ s' = Under(s, Ev.n) /\ UNCHANGED ans
SetA == IsEvent("set") /\ Holds(CanSet(s.kind, Ev.a) \/ Ev.via = "direct") /\ s' = Set(s, Ev.a, Ev.i, Ev.v) /\ UNCHANGED ans
ExtraA == IsEvent("extra") /\ s' = Extra(s, Ev.i, Ev.v) /\ UNCHANGED ans
DumpA == IsEvent("dump") /\ Holds(Dump(s, Ev)) /\ UNCHANGED <<s, ans>>
Content == IsEvent("content") /\ ans' = <<>> /\ UNCHANGED s
Native0 == IsEvent("native") /\ Holds(Ev.alg = Len(ans) + 1) /\ ans' = Append(ans, Ev.ans) /\ UNCHANGED s
Alg == IsEvent("alg") /\ Holds(Agrees(ans[Ev.alg], Ev.ans)) /\ UNCHANGED <<s, ans>>
Finish == End /\ UNCHANGED <<s, ans>>
Init == l = 1 /\ s = Fresh(0) /\ ans = <<>>
Next == New \/ Ctor \/ ResizeA \/ UnderA \/ SetA \/ ExtraA \/ DumpA \/ Content \/ Native0 \/ Alg \/ Finish
Spec == Init /\ [][Next]_<<l, s, ans>>
================================================================================

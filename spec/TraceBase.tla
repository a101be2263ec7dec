------------------------------ MODULE TraceBase ------------------------------
(* Shared by all trace specifications: the trace, the cursor and the acceptance condition.
   A trace is accepted iff every line was consumed by an action of the specification and the last line is the driver's
   explicit "end" event: a driver that crashed or hung inside an operation leaves a trace without it. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l        \* next line of the trace to be explained

Ev == Log[l]
IsEvent(o) == l <= Len(Log) /\ Log[l].op = o /\ l' = l + 1
End == IsEvent("end") /\ l = Len(Log)

(* Evaluates a state predicate as a value; TLC would otherwise enumerate every way of satisfying its disjunctions. *)
Holds(p) == p = TRUE

TraceAccepted ==
  \/ TLCGet("stats").diameter - 1 = Len(Log) /\ Log[Len(Log)].op = "end"
  \/ PrintT(<<"REJECTED", TLCGet("stats").diameter, Len(Log)>>) /\ FALSE
=============================================================================

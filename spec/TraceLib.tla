------------------------------ MODULE TraceLib ------------------------------
(* Reading a recorded trace.  Every Trace<M> module instantiates the pattern               *)
(*    TNext == IF ENABLED Step THEN Step /\ Advance ELSE Reject                             *)
(* where Step binds one logged event to one action of the specification <M>.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLE l          \* index of the next event

Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
Ev == Trace[l]
More == l <= Len(Trace)
Fin(n) == IF n > Len(Trace) THEN PrintT(<<"VP-DONE", n>>) ELSE TRUE
Advance == l' = l + 1 /\ Fin(l + 1)
\* an event nothing explains: report it and go on with the next segment
Reject == PrintT(<<"VP-REJECT", l>>) /\ l' = Ev.ns /\ Fin(Ev.ns)
=============================================================================

------------------------------ MODULE TraceRing ------------------------------
EXTENDS Ring, TraceLib
TInit == l = 1 /\ q = <<>> /\ cap = 0
Obs == Ev.full = (Len(q') = cap') /\ Ev.empty = (q' = <<>>)
Step == \/ Ev.op = "seg" /\ q' = <<>> /\ cap' = 0
        \/ Ev.op = "init" /\ RInit(Ev.n) /\ Obs
        \/ Ev.op = "append" /\ RAppend(Ev.x) /\ Obs
        \/ Ev.op = "appendv" /\ RAppendV(Ev.xs) /\ Ev.src = Ev.xs /\ Obs
        \/ Ev.op = "get" /\ RGet(Ev.some, Ev.x) /\ Obs
        \/ Ev.op = "getv" /\ RGetV(Ev.n, Ev.xs) /\ Obs
TNext == More /\ IF ENABLED Step THEN Step /\ Advance ELSE Reject /\ UNCHANGED <<q, cap>>
TSpec == TInit /\ [][TNext]_<<l, q, cap>>
=============================================================================

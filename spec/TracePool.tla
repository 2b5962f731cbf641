----------------------------- MODULE TracePool ------------------------------
EXTENDS Pool, TraceLib
None == New(0, 0, 0, 1, 1)
TInit == l = 1 /\ p = None
Obs == Ev.used = p'.used /\ Ev.intact /\ PoolOK'
Step == \/ Ev.op = "seg" /\ p' = None
        \/ Ev.op = "init" /\ p' = New(Ev.base, Ev.mem, Ev.n, Ev.bs, Ev.al) /\ Obs
        \/ Ev.op = "alloc" /\ Ev.zero /\ Alloc(Ev.off) /\ Obs
        \/ Ev.op = "free" /\ Free(Ev.off) /\ Obs
        \/ Ev.op = "freeall" /\ FreeAll /\ Obs
TNext == More /\ IF ENABLED Step THEN Step /\ Advance ELSE Reject /\ UNCHANGED p
TSpec == TInit /\ [][TNext]_<<l, p>>
=============================================================================

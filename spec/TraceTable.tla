----------------------------- MODULE TraceTable -----------------------------
EXTENDS Table, TraceLib
TInit == l = 1 /\ m = <<>>
Obs == Shows(m', Ev.gets) /\ Visits(m', Ev.it) /\ Ev.slotok
Step == \/ Ev.op = "seg" /\ m' = <<>>
        \/ Ev.op = "set" /\ Set(Ev.k, Ev.v) /\ Obs
        \/ Ev.op = "remove" /\ Remove(Ev.k) /\ Obs
        \/ Ev.op = "removeall" /\ RemoveAll({Ev.ks[j] : j \in 1..Len(Ev.ks)}) /\ Obs
        \/ Ev.op = "clear" /\ Clear /\ Obs
        \/ Ev.op \in {"rehash", "grow", "rehashfast"} /\ Same /\ Obs
        \/ Ev.op = "mapmut" /\ MapMut(Ev.d) /\ Obs
TNext == More /\ IF ENABLED Step THEN Step /\ Advance ELSE Reject /\ UNCHANGED m
TSpec == TInit /\ [][TNext]_<<l, m>>
=============================================================================

------------------------------ MODULE TraceList ------------------------------
EXTENDS List, TraceLib
TInit == l = 1 /\ ch = {}
\* the code's links, walked in both directions from every linked node
Obs == \A n \in UNION {SeqSet(c) : c \in ch'} : Ev.nx[n + 1] = Nxt(ch', n) /\ Ev.pv[n + 1] = Prv(ch', n) /\ Ev.ptr[n + 1] = n
Step == \/ Ev.op = "seg" /\ ch' = {}
        \/ Ev.op = "init" /\ LInit(Ev.a) /\ Obs
        \/ Ev.op = "add" /\ LAdd(Ev.a, Ev.b) /\ Ev.ret = Ev.b /\ Obs
        \/ Ev.op = "remove" /\ LRemove(Ev.a, Ev.ret) /\ Obs
TNext == More /\ IF ENABLED Step THEN Step /\ Advance ELSE Reject /\ UNCHANGED ch
TSpec == TInit /\ [][TNext]_<<l, ch>>
=============================================================================

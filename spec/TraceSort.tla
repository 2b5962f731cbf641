----------------------------- MODULE TraceSort -----------------------------
EXTENDS Sort, TraceLib
TInit == l = 1
KeyOf(kind, e, off) == IF kind = "str" THEN e ELSE Key(kind, e, off)
Keys(kind, s, off) == [k \in 1..Len(s) |-> KeyOf(kind, s[k], off)]
Step == \/ Ev.op = "seg"
        \/ Ev.op \in {"sort", "radix"} /\ Ev.bad = 0 /\ Perm(Ev.in, Ev.out) /\ Sorted(Keys(Ev.kind, Ev.out, Ev.off))
        \/ Ev.op = "search" /\ Ev.bad = 0 /\ Found(Keys(Ev.kind, Ev.in, Ev.off), KeyOf(Ev.kind, Ev.key, Ev.off), Ev.r)
        \/ Ev.op = "reverse" /\ Ev.out = Rev(Ev.in)
        \/ Ev.op = "shuffle" /\ Perm(Ev.in, Ev.out)
TNext == More /\ IF ENABLED Step THEN Step /\ Advance ELSE Reject
TSpec == TInit /\ [][TNext]_l
=============================================================================

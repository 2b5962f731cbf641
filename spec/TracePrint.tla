----------------------------- MODULE TracePrint -----------------------------
EXTENDS Print, TraceLib
TInit == l = 1
\* the standard output and the standard error: the one that was asked for, and only that one; two calls, one behind the other
Std(out) == /\ Ev.po = out \o out /\ Ev.poe = <<>> /\ Ev.poret = Len(out) + 1 /\ Ev.pe = out \o out /\ Ev.peo = <<>> /\ Ev.peret = Len(out) + 1
Whole(out) == /\ Ev.b = out /\ Ev.a = out /\ Ev.aret = Len(out) + 1 /\ Ev.f = out /\ Ev.fret = Len(out) + 1 /\ Ev.s = out /\ Ev.app = Ev.pre \o out /\ Ev.full = out /\ Ev.fullret = Len(out) + 1 /\ Std(out)
Step == \/ Ev.op = "seg"
        \/ Ev.op = "print" /\ LET full == Printed(Ev.fmt, Ev.args) IN Fits(Ev.out, Ev.ret, full, Ev.n) /\ Whole(full)
        \/ Ev.op = "printf1" /\ FloatNear(Ev.full, Ev.fmt, Ev.args[1]) /\ Fits(Ev.out, Ev.ret, Ev.full, Ev.n) /\ Whole(Ev.full)
        \/ Ev.op = "odd" /\ (IF Ev.n = 0 THEN Ev.ret = -1 ELSE Len(Ev.out) < Ev.n)      \* formats outside the supported subset: only the bound
        \/ Ev.op = "long" /\ Ev.ok /\ Ev.n = Ev.lim - 1 /\ Ev.ret = -1                  \* longer than the print buffer: a prefix everywhere
TNext == More /\ IF ENABLED Step THEN Step /\ Advance ELSE Reject
TSpec == TInit /\ [][TNext]_l
=============================================================================

------------------------------ MODULE TraceMem ------------------------------
EXTENDS Mem, TraceLib
TInit == l = 1 /\ m = <<>>
Obs == m' = Ev.m
Step == \/ Ev.op = "seg" /\ m' = <<>>
        \/ Ev.op = "new" /\ m' = Ev.m
        \/ Ev.op \in {"move", "copy"} /\ Move(Ev.d, Ev.s, Ev.n) /\ Ev.ret = Ev.d /\ Obs
        \/ Ev.op = "set" /\ SetB(Ev.d, Ev.c, Ev.n) /\ Ev.ret = Ev.d /\ Obs
        \/ Ev.op = "zero" /\ SetB(Ev.d, 0, Ev.n) /\ Obs
        \/ Ev.op = "swap" /\ Swap(Ev.d, Ev.s, Ev.n) /\ Obs
        \/ Ev.op = "cmp" /\ Ev.ret = Compare(Ev.d, Ev.s, Ev.n) /\ UNCHANGED m
        \/ Ev.op = "chr" /\ Ev.ret = FirstAt(Ev.d, Ev.n, Ev.c) /\ UNCHANGED m
        \/ Ev.op = "rchr" /\ Ev.ret = LastAt(Ev.d, Ev.n, Ev.c) /\ UNCHANGED m
        \/ Ev.op = "align" /\ Ev.i64 = AlignUp(Ev.v, Ev.a) /\ (Ev.v >= 0 => Ev.u64 = Ev.i64) /\ (Ev.pow => Ev.ptr = Ev.i64)
              /\ Ev.pow = PowTwo(Ev.a) /\ Ev.add = Ev.v + Ev.a /\ Ev.sub = Ev.v - Ev.a /\ Ev.diff = Ev.a - Ev.v /\ UNCHANGED m
TNext == More /\ IF ENABLED Step THEN Step /\ Advance ELSE Reject /\ UNCHANGED m
TSpec == TInit /\ [][TNext]_<<l, m>>
=============================================================================

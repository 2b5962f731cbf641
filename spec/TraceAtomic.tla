---------------------------- MODULE TraceAtomic ----------------------------
EXTENDS Atomics, TraceLib
TInit == l = 1 /\ Fresh(<<0, 0>>)
Step == \/ Ev.op = "seg" /\ Cell(<<0, 0>>)
        \/ Ev.op = "cell" /\ Cell(Ev.v)
        \/ Ev.op = "do" /\ Ev.clean /\ Alone(Ev.f, Ev.a, Ev.b, Ev.r, Ev.v)
        \/ Ev.op = "lock" /\ Ev.clean /\ Alone("t", <<>>, <<>>, Ev.r, Ev.v)
        \/ Ev.op = "unlock" /\ Ev.clean /\ Alone("u", <<>>, <<>>, <<>>, Ev.v)
        \/ Ev.op = "inv" /\ Call(Ev.t, Ev.f, Ev.a, Ev.b)
        \/ Ev.op = "ret" /\ Return(Ev.t, Ev.r)
        \/ Ev.op = "over" /\ Ev.clean /\ Rest(Ev.v)
        \/ Ev.op = "hammer" /\ Ev.clean /\ Total(Ev.k, Ev.n, Ev.c, Ev.a, Ev.v0, Ev.v, Ev.s, Ev.h, Ev.plain) /\ Cell(Ev.v)
TNext == More /\ IF ENABLED Step THEN Step /\ Advance ELSE Reject /\ UNCHANGED avars
TSpec == TInit /\ [][TNext]_<<l, avars>>
=============================================================================

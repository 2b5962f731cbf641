------------------------------ MODULE TraceNum ------------------------------
EXTENDS Num, TraceLib
TInit == l = 1
Step == \/ Ev.op = "seg"
        \/ Ev.op = "u2s" /\ Ev.out = UText(Ev.v, Ev.b) /\ (Ev.b <= 36 => Ev.back = Ev.v /\ Ev.used = Len(Ev.out))
        \/ Ev.op = "i2s" /\ Ev.out = IText(Ev.v, Ev.b) /\ (Ev.b <= 36 => Ev.back = Ev.v /\ Ev.used = Len(Ev.out))
        \/ Ev.op = "s2u" /\ ParseU(Ev.s, Ev.b) = [v |-> Ev.v, n |-> Ev.n]
        \/ Ev.op = "s2i" /\ ParseI(Ev.s, Ev.b) = [v |-> Ev.v, n |-> Ev.n]
        \/ Ev.op = "s2f" /\ LET t == FloatText(Ev.s) IN
              Ev.n = t.n /\ Ev.n32 = t.n /\ (IF IntegerFits(t) THEN Exactly(Ev.d, t) ELSE Near(Ev.d, t, 45)) /\ (Ev.f32 => Near(Ev.f, t, 22))
TNext == More /\ IF ENABLED Step THEN Step /\ Advance ELSE Reject
TSpec == TInit /\ [][TNext]_l
=============================================================================

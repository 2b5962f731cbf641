------------------------------ MODULE TraceSeq ------------------------------
EXTENDS Seq, TraceLib
TInit == l = 1 /\ a = <<>>
i == Ev.a
Obs == /\ a'[i].s = Ev.s /\ a'[i].cap = Ev.cap /\ Ev.ok
       /\ Ev.s # <<>> => Ev.front = Ev.s[1] /\ Ev.back = Ev.s[Len(Ev.s)] /\ Ev.end = Ev.s[Len(Ev.s)]
New == a' = (i :> [s |-> <<>>, cap |-> Ev.want]) @@ a
Step == \/ Ev.op = "seg" /\ a' = <<>>
        \/ Ev.op \in {"init", "binit"} /\ New /\ Obs
        \/ Ev.op = "append" /\ Append1(i, Ev.x, Ev.cap) /\ Obs
        \/ Ev.op = "appendat" /\ AppendAt(i, Ev.x, Ev.pos, Ev.cap) /\ Obs
        \/ Ev.op = "appendv" /\ AppendV(i, Ev.xs, Ev.cap) /\ Obs
        \/ Ev.op = "appendvat" /\ AppendVAt(i, Ev.xs, Ev.pos, Ev.cap) /\ Obs
        \/ Ev.op \in {"pop", "bpop"} /\ Pop(i) /\ Obs
        \/ Ev.op = "remove" /\ Remove(i, Ev.pos) /\ Obs
        \/ Ev.op \in {"clear", "bclear"} /\ Clear(i) /\ Obs
        \/ Ev.op = "fill" /\ Fill(i, Ev.pos, Ev.e, Ev.x) /\ Obs
        \/ Ev.op = "resize" /\ Resize(i, Ev.n, Ev.s, Ev.cap) /\ Obs
        \/ Ev.op = "reserve" /\ Reserve(i, Ev.n, Ev.cap) /\ Obs
        \/ Ev.op = "setcap" /\ SetCapacity(i, Ev.n) /\ Obs
        \/ Ev.op = "grow" /\ Grow(i, Ev.n, Ev.cap) /\ Obs
        \/ Ev.op = "set" /\ Set(i, Ev.pos, Ev.x) /\ Obs
        \/ Ev.op \in {"copy", "bcopy"} /\ Ev.elemok
             /\ a' = (i :> [s |-> a[Ev.from].s, cap |-> a[Ev.from].cap]) @@ a /\ Obs
        \/ Ev.op = "bappend" /\ BAppend(i, Ev.x) /\ Obs
        \/ Ev.op = "bappendv" /\ BAppendV(i, Ev.xs) /\ Obs
TNext == More /\ IF ENABLED Step THEN Step /\ Advance ELSE Reject /\ UNCHANGED a
TSpec == TInit /\ [][TNext]_<<l, a>>
=============================================================================

------------------------------ MODULE TraceStr ------------------------------
EXTENDS Str, TraceLib
TInit == l = 1 /\ st = <<>>
i == Ev.a
\* length, capacity, text, terminator and available space as the code reports them
Obs == /\ st'[i].t = Ev.t /\ Ev.len = Len(Ev.t) /\ st'[i].cap = Ev.cap /\ Ev.nul = 0 /\ Ev.avail = Ev.cap - Ev.len
Step == \/ Ev.op = "seg" /\ st' = <<>>
        \/ Ev.op \in {"make", "makelen"} /\ New(i, Ev.x, Ev.cap) /\ Obs
        \/ Ev.op = "reserve" /\ New(i, <<>>, Ev.cap) /\ Ev.cap >= Ev.n /\ Obs
        \/ Ev.op = "dup" /\ New(i, st[Ev.from].t, Ev.cap) /\ Obs
        \/ Ev.op = "join" /\ New(i, Join(Ev.parts, Ev.glue), Ev.cap) /\ Obs
        \/ Ev.op \in {"sprintf", "sprintfbuf"} /\ New(i, Ev.x, Ev.cap) /\ Obs
        \/ Ev.op \in {"appendc", "appendlen", "appendfmt"} /\ AppendT(i, Ev.x, Ev.cap) /\ Obs
        \/ Ev.op = "append" /\ AppendT(i, st[Ev.from].t, Ev.cap) /\ Obs
        \/ Ev.op = "rune" /\ AppendT(i, IF Ev.r < 0 THEN <<>> ELSE Enc(Ev.r), Ev.cap) /\ Obs
        \/ Ev.op = "set" /\ SetT(i, Ev.x, Ev.cap) /\ Obs
        \/ Ev.op = "clear" /\ ClearT(i, Ev.cap) /\ Obs
        \/ Ev.op = "trim" /\ TrimT(i, Ev.x, Ev.cap) /\ Obs
        \/ Ev.op = "trimspace" /\ TrimT(i, Spaces, Ev.cap) /\ Obs
        \/ Ev.op = "space" /\ SpaceFor(i, Ev.n, Ev.cap) /\ Obs
        \/ Ev.op = "equal" /\ Ev.ret = (st[i].t = st[Ev.from].t) /\ UNCHANGED st
TNext == More /\ IF ENABLED Step THEN Step /\ Advance ELSE Reject /\ UNCHANGED st
TSpec == TInit /\ [][TNext]_<<l, st>>
=============================================================================

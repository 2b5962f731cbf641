----------------------------- MODULE TraceRegex -----------------------------
EXTENDS Regex, TraceLib
TInit == l = 1
\* one text: what the code reported against the preferred match
Agree(ast, x) == LET m == TLCEval(Match(ast, x.t)) IN /\ x.m = m.ok
                 /\ m.ok => x.e = m.e /\ \A k \in 1..Len(x.c) : x.c[k] = (IF k <= Len(m.c) THEN m.c[k] ELSE None)
AgreeAll(ast, x) == LET r == TLCEval(Every(ast, x.t, 0)) IN x.all = r.ok /\ Len(x.l) = Len(r.l)
                 /\ \A k \in 1..Len(r.l) : \A j \in 1..Len(x.l[k]) : x.l[k][j] = (IF j <= Len(r.l[k]) THEN r.l[k][j] ELSE None)
TooLong == 2
Step == \/ Ev.op = "seg"
        \/ /\ Ev.op = "re"
           /\ LET r == TLCEval(Parse(Ev.p)) IN
              \/ /\ Ev.err = 0 /\ r.ok /\ Ev.groups = r.g
                 /\ \A k \in 1..Len(Ev.res) : Agree(r, Ev.res[k])
                 /\ \A k \in 1..Len(Ev.all) : AgreeAll(r, Ev.all[k])
              \/ Ev.err # 0 /\ ~r.ok
              \/ Ev.err = TooLong /\ Ev.cap > 0 /\ Ev.cap < 5 * Len(Ev.p) + 8      \* a caller's buffer too small for the program
              \/ Ev.err = TooLong /\ Len(Ev.p) > 240                               \* one byte operands
           /\ Ev.live = 0
TNext == More /\ LET ok == TLCEval(Step) IN IF ok THEN Advance ELSE Reject
TSpec == TInit /\ [][TNext]_l
=============================================================================

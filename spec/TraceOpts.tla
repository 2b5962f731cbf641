------------------------------ MODULE TraceOpts ------------------------------
EXTENDS Opts, TraceLib
VARIABLES os, pos
vars == <<os, pos>>
TInit == l = 1 /\ os = <<>> /\ pos = <<>>
N(x) == IF x = <<>> THEN None ELSE x
\* option k as read back, given its decided value
Reads(o, x, v, open) ==
    /\ (v # <<>>) => x.has
    /\ (v = <<>> /\ ~open) => ~x.has
    /\ CASE o.t = FLAG -> TRUE
         [] v = <<>> -> x.dflt
         [] o.t = STR -> ~x.dflt /\ x.s = v[1]
         [] o.t = INT -> IsInt(v[1]) => ~x.dflt /\ x.i = IntOf(v[1])
         [] o.t = FLT -> IsDec(v[1]) => ~x.dflt /\ x.i = DecOf(v[1])
Sorted(s) == SortSeq(s, <)
Step == \/ Ev.op = "seg" /\ os' = <<>> /\ pos' = <<>>
        \/ Ev.op = "add" /\ os' = Append(os, [n |-> N(Ev.n), ln |-> N(Ev.ln), d |-> Ev.d, t |-> Ev.t]) /\ UNCHANGED pos
        \/ Ev.op = "pos" /\ LET k == Find(os, Ev.ln, TRUE) IN pos' = (IF k = 0 THEN pos ELSE Append(pos, k)) /\ UNCHANGED os
        \/ /\ Ev.op = "compile"
           /\ LET st == TLCEval(Run(os, Fresh(os, pos), Ev.args)) IN
              /\ Ev.ok = (st.err = <<>>)
              /\ Ev.err = [k \in 1..Len(st.err) |-> <<st.err[k].t, st.err[k].v>>]
              /\ \A k \in 1..Len(os) : Reads(os[k], Ev.vals[k], st.val[k], k \in st.open)
              /\ Ev.filled = (st.pos = <<>>)
              /\ Ev.escr = ErrorScreen(st.err)
              /\ Ev.hscr \in {HelpScreen(Ev.app, os, pos), HelpScreen(Ev.app, os, Sorted(pos))}
              /\ ~Ev.ghost
           /\ Ev.live = 0 /\ os' = <<>> /\ pos' = <<>>
TNext == More /\ IF ENABLED Step THEN Step /\ Advance ELSE Reject /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<l, vars>>
=============================================================================

------------------------------- MODULE TraceAdt -------------------------------
EXTENDS Adt, TraceLib
VARIABLES x
vars == <<x>>
TInit == l = 1 /\ x = Empty
\* the recorded tree: same nodes in the same places, each linked to the node that contains it
RECURSIVE Same(_, _)
Same(y, d) == /\ d.t = y.t /\ d.n = y.n /\ d.p
              /\ y.t \in {INTEGER, REAL} => d.v = y.v
              /\ y.t \in {STR, MULTI} => d.s = y.s
              /\ Len(d.c) = Len(y.c) /\ \A k \in 1..Len(y.c) : Same(y.c[k], d.c[k])
Node(e) == IF e.k \in {ARR, OBJ} THEN Branch(e.k, e.n) ELSE IF e.k = UNINIT THEN Empty ELSE Leaf(e.k, e.n, e.v, e.s)
To(y) == LET z == TLCEval(y) IN Same(z, Ev.tree) /\ x' = z
Step == \/ Ev.op = "seg" /\ x' = Empty
        \/ Ev.op = "new" /\ To(Branch(Ev.k, Ev.n))
        \/ Ev.op = "add" /\ To(Insert(x, Ev.p, Ev.i, Node(Ev))) /\ Ev.at = Ev.p \o <<Ev.i>>
        \/ Ev.op = "set" /\ To(Put(x, Ev.p, Node(Ev)))
        \/ Ev.op = "rm" /\ To(Remove(x, Ev.p))
        \/ Ev.op = "mv" /\ LET m == Move(x, Ev.p, Ev.q, Ev.i) IN To(m.x) /\ Ev.at = m.at
        \/ Ev.op = "swap" /\ To(Swap(x, Ev.p, Ev.q))
        \/ Ev.op = "bad" /\ Ev.at = Fail /\ To(x)                   \* no such place: nothing happens
        \/ Ev.op = "find" /\ LET r == Lookup(Get(x, Ev.p), Ev.n, Ev.deep) IN Ev.at = (IF r = Fail THEN Fail ELSE Ev.p \o r) /\ UNCHANGED x
        \/ Ev.op = "query" /\ LET r == Query(Get(x, Ev.p), Ev.u) IN Ev.at = (IF r = Fail THEN Fail ELSE Ev.p \o r) /\ UNCHANGED x
        \/ Ev.op = "free" /\ Ev.live = 0 /\ UNCHANGED x
TNext == More /\ IF ENABLED Step THEN Step /\ Advance ELSE Reject /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<l, vars>>
=============================================================================

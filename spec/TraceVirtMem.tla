---------------------------- MODULE TraceVirtMem ----------------------------
EXTENDS VirtMem, TraceLib
VARIABLES r, used
SInit == l = 1 /\ r = Regions0 /\ used = {}
\* what the harness saw after the call: every region, page by page, and every mapped page
Seen == [h \in H |-> [on |-> Ev.r[h + 1].on, ids |-> Ev.r[h + 1].ids, vals |-> Ev.r[h + 1].vals]]
Same(x) == Seen = x /\ Range(Ev.live) = Ids(x) /\ Len(Ev.live) = Cardinality(Ids(x)) /\ Ev.size /\ ~Ev.stray   \* (stray: a system call was about pages the library does not hold)
Do == CASE Ev.op = "seg" -> <<TRUE, Regions0, {}>>
        [] Ev.op = "pagesize" -> <<Ev.ok, r, used>>
        [] Ev.op = "wrap" -> <<Ev.ok, r, used>>
        [] Ev.op = "alloc" -> IF Ev.deny THEN <<~Ev.ok /\ Same(r), r, used>>
                              ELSE LET g == Seen[Ev.h] IN
                                   IF Ev.ok /\ g.on /\ Len(g.ids) = Ev.n /\ Fresh(g.ids, used) /\ g.vals = Zeros(Ev.n) /\ Ev.aligned THEN LET x == [r EXCEPT ![Ev.h] = g] IN <<Same(x), x, used \union Range(g.ids)>> ELSE <<FALSE, r, used>>
        [] Ev.op = "fill" -> LET x == [r EXCEPT ![Ev.h] = Filled(@, Ev.p, Ev.v)] IN <<Same(x), x, used>>
        [] Ev.op = "trim" -> LET x == [r EXCEPT ![Ev.h] = Trimmed(@, Ev.p, Ev.n)] IN <<Same(x) /\ Ev.ok, x, used>>
        [] Ev.op = "purge" -> IF Ev.deny THEN <<~Ev.ok /\ Same(r), r, used>> ELSE LET x == [r EXCEPT ![Ev.h] = Purged(@)] IN <<Ev.ok /\ Same(x), x, used>>
        [] Ev.op = "free" -> IF Ev.deny THEN <<~Ev.ok /\ Same(r), r, used>> ELSE LET x == [r EXCEPT ![Ev.h] = NoRegion] IN <<Ev.ok /\ Same(x), x, used>>
        [] OTHER -> <<FALSE, r, used>>
SNext == More /\ LET o == TLCEval(Do) IN IF o[1] THEN r' = o[2] /\ used' = o[3] /\ Advance ELSE Reject /\ UNCHANGED <<r, used>>
TSpec == SInit /\ [][SNext]_<<l, r, used>>
=============================================================================

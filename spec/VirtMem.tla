------------------------------ MODULE VirtMem ------------------------------
(* Regions of virtual memory. A region is a row of pages; every page is known by a number that is never used twice, and holds one value throughout (the checks     *)
(* write whole pages). `live` is every page that is mapped.                                                                                                        *)
EXTENDS Integers, Sequences, FiniteSets
H == 0..5
NoRegion == [on |-> FALSE, ids |-> <<>>, vals |-> <<>>]
Regions0 == [h \in H |-> NoRegion]
Range(s) == {s[k] : k \in 1..Len(s)}
Ids(r) == UNION {Range(r[h].ids) : h \in H}
Region(ids, vals) == [on |-> TRUE, ids |-> ids, vals |-> vals]
Zeros(n) == [k \in 1..n |-> 0]
Fresh(ids, used) == Cardinality(Range(ids)) = Len(ids) /\ Range(ids) \cap used = {}
\* what each call makes of the region it is given (n, a: pages)
Trimmed(g, lead, n) == Region(SubSeq(g.ids, lead + 1, lead + n), SubSeq(g.vals, lead + 1, lead + n))
Purged(g) == [g EXCEPT !.vals = Zeros(Len(g.ids))]
Filled(g, p, v) == [g EXCEPT !.vals[p + 1] = v]
=============================================================================

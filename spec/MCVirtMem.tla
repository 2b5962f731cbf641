----------------------------- MODULE MCVirtMem -----------------------------
(* The same regions over a small address space: pages of addresses that are mapped and unmapped a range at a time, the way the operating system does it.            *)
EXTENDS VirtMem, TLC, Json
CONSTANTS Pages, Depth
VARIABLES at, map, mem, r, nid, hist
\* at[h]: where a region begins; map[a]: the number of the page mapped at address a (0: none); mem[a]: what it holds; r: the regions as their users see them
vars == <<at, map, mem, r, nid, hist>>
A == 0..Pages - 1
Two == {0, 1, 2}
Free(a, n) == a + n <= Pages /\ \A k \in a..a + n - 1 : map[k] = 0
Unmap(m, a, n) == [k \in A |-> IF k >= a /\ k < a + n THEN 0 ELSE m[k]]
Alloc(h, n) == /\ ~r[h].on
               /\ \E a \in A : /\ Free(a, n)
                               /\ at' = [at EXCEPT ![h] = a] /\ map' = [k \in A |-> IF k >= a /\ k < a + n THEN nid + (k - a) ELSE map[k]]
                               /\ mem' = [k \in A |-> IF k >= a /\ k < a + n THEN 0 ELSE mem[k]]
               /\ nid' = nid + n /\ r' = [r EXCEPT ![h] = Region([k \in 1..n |-> nid + k - 1], Zeros(n))]
Fill(h, p) == /\ p < Len(r[h].ids) /\ mem' = [mem EXCEPT ![at[h] + p] = 7 + p] /\ r' = [r EXCEPT ![h] = Filled(@, p, 7 + p)] /\ UNCHANGED <<at, map, nid>>
\* the part before and the part behind are given back
Trim(h, lead, n) == /\ lead + n <= Len(r[h].ids) /\ n > 0
                    /\ LET t == at[h] + lead + n IN map' = Unmap(Unmap(map, at[h], lead), t, Len(r[h].ids) - lead - n)
                    /\ at' = [at EXCEPT ![h] = @ + lead] /\ r' = [r EXCEPT ![h] = Trimmed(@, lead, n)] /\ UNCHANGED <<mem, nid>>
Purge(h) == /\ r[h].on /\ mem' = [k \in A |-> IF k >= at[h] /\ k < at[h] + Len(r[h].ids) THEN 0 ELSE mem[k]] /\ r' = [r EXCEPT ![h] = Purged(@)] /\ UNCHANGED <<at, map, nid>>
FreeR(h) == /\ r[h].on /\ map' = Unmap(map, at[h], Len(r[h].ids)) /\ r' = [r EXCEPT ![h] = NoRegion] /\ UNCHANGED <<at, mem, nid>>
Log(o) == hist' = Append(hist, o)
Init == at = [h \in Two |-> 0] /\ map = [a \in A |-> 0] /\ mem = [a \in A |-> 0] /\ r = Regions0 /\ nid = 1 /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E h \in Two : \/ \E n \in {1, 2, 4} : Alloc(h, n) /\ Log(<<"alloc", h, n>>)
                          \/ r[h].on /\ \E p \in {0, 1, 3} : p < Len(r[h].ids) /\ r[h].vals[p + 1] = 0 /\ Fill(h, p) /\ Log(<<"fill", h, p, 7 + p>>)
                          \/ r[h].on /\ \E lead \in 0..2, n \in 1..3 : Trim(h, lead, n) /\ Log(<<"trim", h, lead, n>>)
                          \/ Purge(h) /\ Log(<<"purge", h>>)
                          \/ FreeR(h) /\ Log(<<"free", h>>)
Spec == Init /\ [][Next]_vars
Mapped == {map[a] : a \in A} \ {0}
\* what is mapped is what the regions hold, each page with the content its user expects, and no page belongs to two
Held == Mapped = Ids(r)
Faithful == \A h \in Two : r[h].on => \A k \in 1..Len(r[h].ids) : map[at[h] + k - 1] = r[h].ids[k] /\ mem[at[h] + k - 1] = r[h].vals[k]
Apart == \A g, h \in Two : g # h => Range(r[g].ids) \cap Range(r[h].ids) = {}
View == <<at, map, mem, r, Len(hist)>>
Emit == Len(hist') = Depth => PrintT(<<"VP-HIST", ToJson(hist')>>)
=============================================================================

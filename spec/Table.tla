------------------------------- MODULE Table -------------------------------
(* Hash table as a finite map from key numbers to values.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLE m
Set(k, v) == m' = (k :> v) @@ m
Without(f, ks) == [x \in DOMAIN f \ ks |-> f[x]]
Remove(k) == m' = Without(m, {k})
RemoveAll(ks) == m' = Without(m, ks)
Clear == m' = <<>>
Same == UNCHANGED m                       \* rehash, grow, rehash_fast, get, slot
MapMut(d) == m' = [x \in DOMAIN m |-> (m[x] + d) % 1000]
\* what the table shows: gets[i] is the value found for key i-1 or -1
Shows(f, gets) == \A i \in 1..Len(gets) : gets[i] = IF (i - 1) \in DOMAIN f THEN f[i - 1] ELSE -1
\* what an iteration visits: every live entry exactly once
Visits(f, it) == /\ Len(it) = Cardinality(DOMAIN f)
                 /\ {it[j][1] : j \in 1..Len(it)} = DOMAIN f
                 /\ \A j \in 1..Len(it) : it[j][2] = f[it[j][1]]
=============================================================================

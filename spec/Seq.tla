-------------------------------- MODULE Seq --------------------------------
(* Dynamic arrays and fixed buffers: each slot i of a holds [s : sequence, cap : capacity].   *)
EXTENDS Integers, Sequences
VARIABLE a
Min(x, y) == IF x < y THEN x ELSE y
InsertAt(s, i, t) == SubSeq(s, 1, i) \o t \o SubSeq(s, i + 1, Len(s))      \* i elements stay in front
RemoveAt(s, i) == SubSeq(s, 1, i) \o SubSeq(s, i + 2, Len(s))              \* i is zero based
FillSeq(s, b, e, v) == [j \in 1..Len(s) |-> IF j > b /\ j <= e THEN v ELSE s[j]]
\* every operation that may enlarge leaves an allocation at least as large as before and as needed
Put(i, s2, cap2) == cap2 >= Len(s2) /\ a' = [a EXCEPT ![i] = [s |-> s2, cap |-> cap2]]
Grown(i, s2, cap2) == cap2 >= a[i].cap /\ (Len(s2) <= a[i].cap => cap2 = a[i].cap) /\ Put(i, s2, cap2)

Append1(i, x, cap2) == Grown(i, Append(a[i].s, x), cap2)
AppendAt(i, x, pos, cap2) == pos \in 0..Len(a[i].s) /\ Grown(i, InsertAt(a[i].s, pos, <<x>>), cap2)
AppendV(i, xs, cap2) == Grown(i, a[i].s \o xs, cap2)
AppendVAt(i, xs, pos, cap2) == Grown(i, InsertAt(a[i].s, Min(pos, Len(a[i].s)), xs), cap2)
Pop(i) == a[i].s # <<>> /\ Put(i, SubSeq(a[i].s, 1, Len(a[i].s) - 1), a[i].cap)
Remove(i, pos) == pos \in 0..Len(a[i].s) - 1 /\ Put(i, RemoveAt(a[i].s, pos), a[i].cap)
Clear(i) == Put(i, <<>>, a[i].cap)
Fill(i, b, e, v) == b >= 0 /\ e <= Len(a[i].s) /\ Put(i, FillSeq(a[i].s, b, e, v), a[i].cap)
\* new elements of a resized array are unspecified
Resize(i, n, s2, cap2) == /\ Len(s2) = n
                          /\ \A j \in 1..Min(n, Len(a[i].s)) : s2[j] = a[i].s[j]
                          /\ Grown(i, s2, cap2)
Reserve(i, n, cap2) == cap2 >= n /\ cap2 >= a[i].cap /\ (n <= a[i].cap => cap2 = a[i].cap) /\ Put(i, a[i].s, cap2)
SetCapacity(i, n) == Put(i, SubSeq(a[i].s, 1, Min(n, Len(a[i].s))), n)
Grow(i, n, cap2) == cap2 >= n /\ cap2 > a[i].cap /\ Put(i, a[i].s, cap2)
Set(i, pos, v) == pos \in 0..Len(a[i].s) - 1 /\ Put(i, [a[i].s EXCEPT ![pos + 1] = v], a[i].cap)
Copy(i, j) == a' = [a EXCEPT ![j] = [s |-> a[i].s, cap |-> a[i].cap]]
\* fixed capacity buffer
BAppend(i, x) == Len(a[i].s) < a[i].cap /\ Put(i, Append(a[i].s, x), a[i].cap)
BAppendV(i, xs) == Len(a[i].s) + Len(xs) <= a[i].cap /\ Put(i, a[i].s \o xs, a[i].cap)
SeqOK == \A i \in DOMAIN a : Len(a[i].s) <= a[i].cap
=============================================================================

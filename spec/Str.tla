--------------------------------- MODULE Str ---------------------------------
(* Growable strings: st[i] = [t : text, cap : capacity]. *)
EXTENDS Integers, Sequences, UtfEnc
VARIABLE st
SMin(x, y) == IF x < y THEN x ELSE y
\* (a zero byte always counts as trimmable: the cut set is a terminated text)
InSet(c, cut) == c = 0 \/ \E k \in 1..Len(cut) : cut[k] = c
Trim(t, cut) == LET K == {k \in 1..Len(t) : ~InSet(t[k], cut)}
                IN IF K = {} THEN <<>> ELSE SubSeq(t, CHOOSE k \in K : \A j \in K : k <= j, CHOOSE k \in K : \A j \in K : k >= j)
Spaces == <<32, 9, 13, 10, 11, 12>>
RECURSIVE Join(_, _)
Join(parts, glue) == IF parts = <<>> THEN <<>> ELSE IF Len(parts) = 1 THEN parts[1] ELSE parts[1] \o glue \o Join(Tail(parts), glue)
New(i, t, cap2) == cap2 >= Len(t) /\ st' = (i :> [t |-> t, cap |-> cap2]) @@ st
\* an operation on an existing string keeps the capacity while the text fits and never shrinks it
Put(i, t, cap2) == /\ cap2 >= Len(t) /\ cap2 >= st[i].cap /\ (Len(t) <= st[i].cap => cap2 = st[i].cap)
                   /\ st' = [st EXCEPT ![i] = [t |-> t, cap |-> cap2]]
AppendT(i, t, cap2) == Put(i, st[i].t \o t, cap2)
SetT(i, t, cap2) == Put(i, t, cap2)
ClearT(i, cap2) == Put(i, <<>>, cap2)
TrimT(i, cut, cap2) == Put(i, Trim(st[i].t, cut), cap2)
SpaceFor(i, n, cap2) == /\ cap2 >= Len(st[i].t) + n /\ cap2 >= st[i].cap /\ (Len(st[i].t) + n <= st[i].cap => cap2 = st[i].cap)
                        /\ st' = [st EXCEPT ![i].cap = cap2]
StrOK == \A i \in DOMAIN st : Len(st[i].t) <= st[i].cap
=============================================================================

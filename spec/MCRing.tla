------------------------------- MODULE MCRing -------------------------------
(* The code's representation (head/tail over capacity+1 slots) refines the bounded FIFO. *)
EXTENDS Ring, TLC, Json
CONSTANTS MaxOps
VARIABLES hist, n, buf, head, tail
Init == /\ \E c \in 0..3 : cap = c /\ hist = <<<<"init", c>>>> /\ buf = [i \in 0..c |-> 0]
        /\ q = <<>> /\ n = 1 /\ head = 0 /\ tail = 0
C == cap + 1
Log(op) == hist' = Append(hist, op) /\ n' = n + 3
ImplAppend(st, x) == LET b == [st.b EXCEPT ![st.h] = x] h == (st.h + 1) % C IN [b |-> b, h |-> h, t |-> IF h = st.t THEN (st.t + 1) % C ELSE st.t]
St == [b |-> buf, h |-> head, t |-> tail]
Put(st) == buf' = st.b /\ head' = st.h /\ tail' = st.t
Take(k) == LET m == Min(k, Len(q)) IN tail' = (tail + m) % C /\ UNCHANGED <<buf, head>>
Next == \/ RAppend(n) /\ Put(ImplAppend(St, n)) /\ Log(<<"append", n>>)
        \/ RAppendV(<<n, n + 1>>) /\ Put(ImplAppend(ImplAppend(St, n), n + 1)) /\ Log(<<"appendv", n, n + 1>>)
        \/ RGet(q # <<>>, IF q = <<>> THEN 0 ELSE Head(q)) /\ Take(1) /\ Log(<<"get">>)
        \/ \E k \in {0, 1, 2, 9} : RGetV(k, SubSeq(q, 1, Min(k, Len(q)))) /\ Take(k) /\ Log(<<"getv", k>>)
Bound == Len(hist) <= MaxOps
Emit == Len(hist') = MaxOps => PrintT(<<"VP-HIST", ToJson(hist')>>)
Occ == (head - tail + C) % C
Abs == /\ Len(q) = Occ /\ \A i \in 1..Len(q) : q[i] = buf[(tail + i - 1) % C]
       /\ (RFull <=> (head + 1) % C = tail) /\ (REmpty <=> head = tail)
=============================================================================

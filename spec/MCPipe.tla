------------------------------- MODULE MCPipe -------------------------------
EXTENDS Pipe, TLC, Json
CONSTANT MaxOps
VARIABLES hist, n
Init == pp = NoPipe /\ hist = <<>> /\ n = 0
D(k) == [i \in 1..k |-> 10 + n * 10 + i]
Log(op) == hist' = Append(hist, op) /\ n' = (n + 1) % 3
Min(a, b) == IF a < b THEN a ELSE b
Next == Len(hist) < MaxOps /\
  IF ~pp.on THEN PNew /\ \E s \in {0, 1} : Log(<<"pipe", s>>)
  ELSE \/ \E k \in {1, 3} : PWrite(D(k), TRUE, k) /\ \E w \in {"pwrite", "pput"} : (w = "pput" => pp.q = <<>>) /\ Log(<<w>> \o D(k))
       \/ \E k \in {1, 2, 5} : PRead(k, pp.q # <<>> \/ ~pp.open, SubSeq(pp.q, 1, Min(k, Len(pp.q)))) /\ \E r \in {"pread", "pget"} : Log(<<r, k>>)
       \/ PClose /\ Log(<<"pend">>)
View == <<pp, n, Len(hist), IF hist = <<>> THEN 0 ELSE hist[1]>>
Emit == Len(hist') = MaxOps => PrintT(<<"VP-HIST", ToJson(hist')>>)
\* what was taken in and not yet given out is under way, in order: reading gives the front, writing adds to the back
Order == [][\/ \E k \in 0..Len(pp.q) : pp'.q = SubSeq(pp.q, k + 1, Len(pp.q)) \/ (Len(pp'.q) >= Len(pp.q) /\ SubSeq(pp'.q, 1, Len(pp.q)) = pp.q)]_pp
MSpec == Init /\ [][Next]_<<pp, hist, n>>
=============================================================================

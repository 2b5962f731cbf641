------------------------------ MODULE MCStream ------------------------------
EXTENDS Stream, TLC, Json
CONSTANTS MaxOps
VARIABLES hist, n
Init == /\ cur = 0 /\ n = 10
        /\ \E k \in {"new", "grow", "fixed", "ro"} : \E b \in {<<>>, <<1>>, <<1, 2, 3>>} :
             /\ (k = "new" => b = <<>>) /\ kind = (IF k = "new" THEN "grow" ELSE k) /\ buf = b /\ orig = b
             /\ hist = <<<<k>> \o b>>
Log(op) == hist' = Append(hist, op) /\ n' = n + 5
D(k) == [i \in 1..k |-> n + i]
Next == Len(hist) < MaxOps /\ (
  \/ \E k \in {0, 1, 2, 4} :
       \/ SWrite(D(k), kind # "ro") /\ Log(<<"write">> \o D(k))
       \/ SRead(k, TRUE, Slice(buf, cur, k)) /\ Log(<<"read", k>>)
  \/ \E k \in {1, 3}, off \in {-1, 0, 2, 5} :
       \/ SWriteAt(off, D(k), kind # "ro" /\ off >= 0, IF kind = "ro" \/ off < 0 THEN 0 ELSE Len(Stored(off, D(k)))) /\ Log(<<"writeat", off>> \o D(k))
       \/ SReadAt(off, k, off >= 0, IF off < 0 THEN <<>> ELSE Slice(buf, off, k)) /\ Log(<<"readat", off, k>>)
  \/ \E p \in {-1, 0, 1, 3, 9} : SSeek(p) /\ Log(<<"seek", p>>)
  \/ \E p \in {-2, 1, 7} : SSeek(cur + p) /\ Log(<<"skip", p>>)
  \/ SSeek(Len(buf)) /\ Log(<<"end">>))
Emit == Len(hist') = MaxOps => PrintT(<<"VP-HIST", ToJson(hist')>>)
\* a fixed stream keeps its length, a clone keeps the original, a read-only stream keeps everything
Steps == [][(kind \in {"fixed", "ro"} => Len(buf') = Len(buf)) /\ (kind # "fixed" => orig' = orig) /\ (kind = "ro" => buf' = buf) /\ Len(buf') >= Len(buf)]_<<svars>>
MSpec == Init /\ [][Next]_<<svars, hist, n>>
=============================================================================

------------------------------- MODULE MCSeq -------------------------------
EXTENDS Seq, TLC, Json
CONSTANTS MaxOps, Buffer
VARIABLES hist, n        \* n: fresh element values, so that order is visible
F(c) == 2 * c + 8
Cap2(len) == IF len <= a[0].cap THEN a[0].cap ELSE IF F(a[0].cap) < len THEN len ELSE F(a[0].cap)
Init == /\ hist = <<<<IF Buffer THEN "binit" ELSE "init", 0, 2>>>> /\ n = 1
        /\ a = [i \in 0..1 |-> [s |-> <<>>, cap |-> 2]]
Log(op) == hist' = Append(hist, op) /\ n' = n + 2
L == Len(a[0].s)
Positions == {0, 1, L - 1, L} \cap 0..L
NextA == \/ Append1(0, n, Cap2(L + 1)) /\ Log(<<"append", 0, n>>)
         \/ \E p \in Positions : AppendAt(0, n, p, Cap2(L + 1)) /\ Log(<<"appendat", 0, n, p>>)
         \/ AppendV(0, <<n, n + 1>>, Cap2(L + 2)) /\ Log(<<"appendv", 0, n, n + 1>>)
         \/ \E p \in Positions \cup {L + 1} : AppendVAt(0, <<n, n + 1>>, p, Cap2(L + 2)) /\ Log(<<"appendvat", 0, p, n, n + 1>>)
         \/ Pop(0) /\ Log(<<"pop", 0>>)
         \/ \E p \in Positions \ {L} : Remove(0, p) /\ Log(<<"remove", 0, p>>)
         \/ Clear(0) /\ Log(<<"clear", 0>>)
         \/ L >= 2 /\ Fill(0, 1, L, n) /\ Log(<<"fill", 0, 1, L, n>>)
         \/ \E m \in {0, 1, 3} : SetCapacity(0, m) /\ Log(<<"setcap", 0, m>>)
         \/ \E m \in {1, L + 1} : Resize(0, m, [j \in 1..m |-> IF j <= L THEN a[0].s[j] ELSE 0], Cap2(m)) /\ Log(<<"resize", 0, m>>)
         \/ Reserve(0, 6, IF a[0].cap < 6 THEN 6 ELSE a[0].cap) /\ Log(<<"reserve", 0, 6>>)
         \/ Copy(0, 1) /\ Log(<<"copy", 0, 1>>)
NextB == \/ BAppend(0, n) /\ Log(<<"bappend", 0, n>>)
         \/ BAppendV(0, <<n, n + 1>>) /\ Log(<<"bappendv", 0, n, n + 1>>)
         \/ Pop(0) /\ Log(<<"bpop", 0>>)
         \/ Clear(0) /\ Log(<<"bclear", 0>>)
         \/ Copy(0, 1) /\ Log(<<"bcopy", 0, 1>>)
Next == IF Buffer THEN NextB ELSE NextA
Bound == Len(hist) <= MaxOps
Emit == Len(hist') = MaxOps => PrintT(<<"VP-HIST", ToJson(hist')>>)
\* nothing stored is altered by growth
NoLoss == [][\E i \in 1..Len(hist') : hist'[i][1] \in {"append", "bappend", "appendv"} /\ i = Len(hist') =>
              SubSeq(a'[0].s, 1, L) = a[0].s]_a
=============================================================================

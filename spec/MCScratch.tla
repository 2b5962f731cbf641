----------------------------- MODULE MCScratch -----------------------------
EXTENDS Scratch, FiniteSets, TLC, Json
CONSTANTS Caps, Sizes, MaxOps
VARIABLE hist
Init == \E c \in Caps : sc = New(0, c) /\ hist = <<<<"scratch", 0, c>>>>
Up8(x) == ((x + 7) \div 8) * 8
\* block placement as a ring would: behind the newest, else at the start
Tl == IF sc.ring = <<>> THEN 0 ELSE sc.ring[Len(sc.ring)].off + sc.ring[Len(sc.ring)].size
Next == \/ \E s \in Sizes :
             /\ \/ Alloc(s, 8, Up8(Tl + 8)) \/ Alloc(s, 8, 8) \/ AllocNull(s, 8)
             /\ hist' = Append(hist, <<"calloc", s, 8>>)
        \/ \E i \in 1..Len(sc.ring) : Free(i) /\ hist' = Append(hist, <<"cfree", Cardinality({j \in 1..i - 1 : Busy(j)})>>)
        \/ FreeAll /\ hist' = Append(hist, <<"cfreeall">>)
Bound == Len(hist) <= MaxOps
View == sc
Emit == PrintT(<<"VP-HIST", ToJson(hist')>>)
=============================================================================

------------------------------- MODULE MCHeap -------------------------------
EXTENDS Heap, TLC, Json
CONSTANTS Sizes, Als, MaxOps
VARIABLE hist
Init == h = [live |-> {}] /\ hist = <<>>
NextId == IF \E i \in 0..3 : ~Has(i) THEN CHOOSE i \in 0..3 : ~Has(i) ELSE 99
Addr(x) == <<x, 0, 0, 0>>
Next == \/ NextId # 99 /\ \E s \in Sizes, al \in Als, x \in {0, 4, 8, 12} : Alloc(NextId, Addr(x), s, al) /\ hist' = Append(hist, <<"alloc", NextId, s * 5, al * 4>>)
        \/ \E i \in 0..3 : Free(i) /\ hist' = Append(hist, <<"free", i>>)
        \/ \E i \in 0..3, s \in Sizes : ResizeSame(i, s) /\ hist' = Append(hist, <<"resize", i, s * 5, 16>>)
        \/ \E i \in 0..3, s \in Sizes, x \in {0, 4, 8, 12} : ResizeMove(i, Addr(x), s, 4) /\ hist' = Append(hist, <<"resize", i, s * 5, 16>>)
Bound == Len(hist) <= MaxOps
View == h
Emit == PrintT(<<"VP-HIST", ToJson(hist')>>)
=============================================================================

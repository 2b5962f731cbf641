------------------------------ MODULE MCStack ------------------------------
EXTENDS Stack, TLC, Json
CONSTANTS Totals, Sizes, Aligns, MaxOps
VARIABLE hist
Init == \E t \in Totals, b \in {0, 8} : st = New(b, t) /\ hist = <<<<"stack", b, t, 1>>>>
Next == \/ \E s \in Sizes, al \in Aligns :
             /\ LET off == Up(st.base + st.top + Hdr, al) - st.base IN
                IF off + s <= st.total THEN Alloc(s, al, off, st.base, st.total, off + s, FALSE)
                ELSE Alloc(s, al, off, st.base, st.total + Hdr + s + al, off + s, TRUE)
             /\ hist' = Append(hist, <<"salloc", s, al>>)
        \/ Free /\ hist' = Append(hist, <<"sfree">>)
        \/ FreeAll /\ hist' = Append(hist, <<"sfreeall">>)
Bound == Len(hist) <= MaxOps
View == st
Emit == PrintT(<<"VP-HIST", ToJson(hist')>>)
=============================================================================

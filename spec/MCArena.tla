------------------------------ MODULE MCArena ------------------------------
EXTENDS Arena, TLC, Json
CONSTANTS Bases, Caps, Sizes, Aligns, MaxOps
VARIABLE hist
A == 0
Init == \E b \in Bases, c \in Caps : ar = (A :> NewArena(b, c)) /\ hist = <<<<"init", A, b, c, 0>>>>
Log(op) == hist' = Append(hist, op)
Blocks == ar[A].live
Rank(b) == Cardinality({c \in Blocks : c.off < b.off \/ (c.off = b.off /\ c.size < b.size)})
Next ==
  \/ \E s \in Sizes, al \in Aligns :
        /\ \/ \E off \in ar[A].used..ar[A].cap : \E u \in off + s..ar[A].cap : Alloc(A, s, al, off, u)
           \/ AllocNull(A, s, al)
        /\ Log(<<"alloc", A, s, al>>)
  \/ \E b \in Blocks, s \in Sizes, al \in Aligns :
        /\ \/ ResizeSame(A, b, s)
           \/ s = 0 /\ ResizeZero(A, b)
           \/ \E off \in ar[A].used..ar[A].cap : \E u \in off + s..ar[A].cap : ResizeMove(A, b, s, al, off, u)
           \/ ResizeNull(A, b, s, al)
        /\ Log(<<"resize", A, Rank(b), s, al>>)
  \/ SnapBegin(A) /\ Len(ar[A].snaps) < 2 /\ Log(<<"snapb", A>>)
  \/ SnapEnd(A) /\ Log(<<"snape", A>>)
  \/ FreeAll(A) /\ Log(<<"freeall", A>>)
Bound == Len(hist) <= MaxOps
View == ar
Emit == PrintT(<<"VP-HIST", ToJson(hist')>>)
\* action properties
SnapRestores == [][\A a \in DOMAIN ar : Len(ar'[a].snaps) < Len(ar[a].snaps) =>
                     ar'[a].used = ar[a].snaps[Len(ar[a].snaps)].used]_ar
LiveKept == [][\A a \in DOMAIN ar : (Len(ar'[a].snaps) >= Len(ar[a].snaps) /\ ar'[a].used # 0) => ar[a].live \subseteq ar'[a].live]_ar
=============================================================================

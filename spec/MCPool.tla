------------------------------- MODULE MCPool -------------------------------
EXTENDS Pool, Sequences, TLC, Json
CONSTANTS Ns, Bss, Als, MaxOps
VARIABLE hist
Init == \E n \in Ns, bs \in Bss, al \in Als :
           LET st == ((bs + al - 1) \div al) * al IN
           p = New(0, n * st, n, bs, al) /\ hist = <<<<"init", n, bs, al>>>>
Rank(o) == Cardinality({x \in p.live : x < o})
Stride == ((p.bs + p.al - 1) \div p.al) * p.al
Next == \/ \E o \in {k * Stride : k \in 0..p.n - 1} : Alloc(o) /\ hist' = Append(hist, <<"alloc">>)
        \/ \E o \in p.live : Free(o) /\ hist' = Append(hist, <<"free", Rank(o)>>)
        \/ FreeAll /\ hist' = Append(hist, <<"freeall">>)
Bound == Len(hist) <= MaxOps
View == p
Emit == PrintT(<<"VP-HIST", ToJson(hist')>>)
\* with block slots laid out disjointly, N blocks can always be live at once
CanFill == Cardinality(p.live) < p.n => \E o \in {k * Stride : k \in 0..p.n - 1} : Fits(p, o)
=============================================================================

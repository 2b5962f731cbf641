----------------------------- MODULE TableImpl -----------------------------
(* The representation the library uses: an array of bucket heads and an array of entries      *)
(* [key, val, next], chained per bucket; checked by TLC to implement the map of module Table. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Keys, Vals, MaxOps
VARIABLES heads, ents, hist
None == -1
RECURSIVE Walk(_, _, _, _)
\* find: <<previous entry, entry>> following the chain from index e
Walk(E, k, prev, e) == IF e = None THEN <<prev, None>> ELSE IF E[e + 1].key = k THEN <<prev, e>> ELSE Walk(E, k, e, E[e + 1].next)
Find(H, E, k) == IF H = <<>> THEN <<None, None>> ELSE Walk(E, k, None, H[(k % Len(H)) + 1])
Ent(k, v, n) == [key |-> k, val |-> v, next |-> n]
Link(H, E, k, j) == LET f == Find(H, E, k) IN      \* append entry j of key k to its chain
    IF f[1] = None THEN <<[H EXCEPT ![(k % Len(H)) + 1] = j], E>> ELSE <<H, [E EXCEPT ![f[1] + 1].next = j]>>
RECURSIVE Relink(_, _, _, _)
Relink(H, E, src, i) == IF i > Len(src) THEN <<H, E>>
    ELSE LET r == Link(H, Append(E, Ent(src[i].key, src[i].val, None)), src[i].key, Len(E)) IN Relink(r[1], r[2], src, i + 1)
Rehash(n, E) == Relink([i \in 1..n |-> None], <<>>, E, 1)
GrowTo(E) == 2 * Len(E) + 2                          \* the library uses 2n+8; smaller here so that growth is reached
SetImpl(k, v) ==
    LET H0 == IF heads = <<>> THEN [i \in 1..GrowTo(ents) |-> None] ELSE heads
        E0 == ents
        f == Find(H0, E0, k)
        r == IF f[2] # None THEN <<H0, [E0 EXCEPT ![f[2] + 1].val = v]>>
             ELSE Link(H0, Append(E0, Ent(k, v, None)), k, Len(E0))
        full == 3 * Len(r[1]) < 4 * Len(r[2])
        g == IF full THEN Rehash(GrowTo(r[2]), r[2]) ELSE r IN
    heads' = g[1] /\ ents' = g[2]
RemoveImpl(k) ==
    LET f == Find(heads, ents, k) IN
    IF f[2] = None THEN UNCHANGED <<heads, ents>>
    ELSE LET E == SubSeq(ents, 1, f[2]) \o SubSeq(ents, f[2] + 2, Len(ents))
             r == Rehash(Len(heads), E) IN heads' = r[1] /\ ents' = r[2]
Init == heads = <<>> /\ ents = <<>> /\ hist = <<>>
Log(op) == hist' = Append(hist, op)
Next == \/ \E k \in Keys, v \in Vals : SetImpl(k, v) /\ Log(<<"set", k, v>>)
        \/ \E k \in Keys : RemoveImpl(k) /\ Log(<<"remove", k>>)
        \/ heads' = [i \in 1..Len(heads) |-> None] /\ ents' = <<>> /\ Log(<<"clear">>)
        \/ \E n \in {1, 5} : LET r == Rehash(n, ents) IN heads' = r[1] /\ ents' = r[2] /\ Log(<<"rehash", n>>)
Bound == Len(hist) < MaxOps
View == <<heads, ents>>
Emit == PrintT(<<"VP-HIST", ToJson(hist')>>)
\* refinement: the abstract map read off through Find
AbsKeys == {k \in Keys : Find(heads, ents, k)[2] # None}
Abs == [k \in AbsKeys |-> ents[Find(heads, ents, k)[2] + 1].val]
T == INSTANCE Table WITH m <- Abs
Refines == [][\/ \E k \in Keys, v \in Vals : T!Set(k, v)
              \/ \E k \in Keys : T!Remove(k)
              \/ T!Clear \/ T!Same]_<<heads, ents>>
NoDup == \A i, j \in 1..Len(ents) : ents[i].key = ents[j].key => i = j
AllReachable == {ents[i].key : i \in 1..Len(ents)} = AbsKeys
Acyclic == \A i \in 1..Len(ents) : ents[i].next = None \/ ents[i].next > i - 1   \* chains run forward, so every walk ends
=============================================================================

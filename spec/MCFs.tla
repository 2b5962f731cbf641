-------------------------------- MODULE MCFs --------------------------------
EXTENDS Fs, TLC, Json
CONSTANTS MaxOps
VARIABLES hist, n
Names == {"a", "b"}
Paths == {<<x>> : x \in Names} \cup {<<"a", y>> : y \in Names}
PathsX == Paths \cup {<<"a", "b", "..x">>}
Str(p) == IF Len(p) = 1 THEN p[1] ELSE IF Len(p) = 2 THEN p[1] \o "/" \o p[2] ELSE p[1] \o "/" \o p[2] \o "/" \o p[3]
Init == FInit /\ hist = <<>> /\ n = 0
Log(op) == hist' = Append(hist, op) /\ n' = 1 - n
Next == Len(hist) < MaxOps /\
  \/ \E p \in PathsX : FWrite(p, <<65 + n>>) /\ Log(<<"wr", Str(p), 65 + n>>)
  \/ \E p \in PathsX : FMkdir(p, IF CanCreate(p) THEN 0 ELSE 3) /\ Log(<<"mkdir", Str(p)>>)
  \/ \E p \in {<<"a", "b", "..x">>} : \E ok \in BOOLEAN : FMkdirR(p, ok) /\ Log(<<"mkdirr", Str(p)>>)
  \/ \E p \in Paths : FRmdir(p, IF Dir(p) THEN (IF Kids(p) = {} THEN 0 ELSE 7) ELSE 4) /\ Log(<<"rmdir", Str(p)>>)
  \/ \E p \in Paths, ok \in BOOLEAN : FRemove(p, ok) /\ Log(<<"rm", Str(p)>>)
  \/ \E s, d \in Paths, x \in BOOLEAN, ok \in BOOLEAN : FCopy(s, d, x, -1, ok) /\ Log(<<"cp", Str(s), Str(d), IF x THEN 1 ELSE 0>>)
  \/ \E s, d \in Paths : s # <<>> /\ (IF File(s) /\ CanCreate(d) /\ ~IsPrefix(s, d) THEN FMove(s, d, TRUE) ELSE Same) /\ Log(<<"mv", Str(s), Str(d)>>)
View == <<tree, n, Len(hist)>>
Emit == Len(hist') = MaxOps => PrintT(<<"VP-HIST", ToJson(hist')>>)
\* a step changes at most the subtrees it names: here, never more than two paths' subtrees appear or vanish together with their parents intact
NoOrphans == \A m \in tree : \A q \in {SubSeq(m.p, 1, k) : k \in 1..(Len(m.p) - 1)} : Dir(q)
CopyKeeps == [][\A m \in tree : m \in tree' \/ \A m2 \in tree' : m2.p # m.p \/ m2.t = "f"]_<<tree>>
MSpec == Init /\ [][Next]_<<tree, hist, n>>
=============================================================================

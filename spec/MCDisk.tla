------------------------------- MODULE MCDisk -------------------------------
EXTENDS Disk, TLC, Json
CONSTANTS MaxOps, MaxLen
VARIABLES hist, n
Init == DInit /\ hist = <<>> /\ n = 0
Log(op) == hist' = Append(hist, op) /\ n' = (n + 1) % 3
D(k) == [i \in 1..k |-> 20 + n * 4 + i]
Modes == {"r", "w", "a", "r+", "w+", "a+"}
Next == Len(hist) < MaxOps /\ (
  \/ \E h \in Handles : ~IsOpen(h) /\
       \/ \E p \in Paths, m \in Modes : DOpen(h, p, m, IF m \in {"r", "r+"} /\ ~Exists(p) THEN ENotExists ELSE ENone) /\ Log(<<"open", h, p, m>>)
       \/ DTemp(h) /\ Log(<<"temp", h>>)
  \/ \E h \in Handles : IsOpen(h) /\
       \/ DClose(h) /\ Log(<<"close", h>>)
       \/ \E k \in {1, 2} : \E ok \in BOOLEAN, c \in 0..(2 * MaxLen) : DWrite(h, D(k), -1, ok, c) /\ Log(<<"write", h>> \o D(k))
       \/ \E off \in {0, 2, -1} : \E ok \in BOOLEAN, c \in 0..(2 * MaxLen), k \in 0..2 : DWriteAt(h, off, D(2), -1, ok, k, c) /\ Log(<<"writeat", h, off>> \o D(2))
       \/ DRead(h, 2, CanRead(hs[h].m), IF CanRead(hs[h].m) THEN Slice(Cont(h), hs[h].cur, 2) ELSE <<>>) /\ Log(<<"read", h, 2>>)
       \/ DReadAt(h, 1, 2, CanRead(hs[h].m), IF CanRead(hs[h].m) THEN Slice(Cont(h), 1, 2) ELSE <<>>) /\ Log(<<"readat", h, 1, 2>>)
       \/ \E to \in {0, 1, 3} : DSeek(h, to) /\ Log(<<"seek", h, to>>)
       \/ DSeek(h, Len(Cont(h))) /\ Log(<<"end", h>>)
       \/ \E k \in {0, 1, 3} : DTruncate(h, k, -1, IF CanWrite(hs[h].m) THEN ENone ELSE ETrunc) /\ Log(<<"trunc", h, k>>)
  \/ \E p \in Paths : \/ DWriteContents(p, D(2), -1, TRUE, ENone) /\ Log(<<"wcont", p>> \o D(2))
                      \/ DReadContents(p, Bytes(p)) /\ Log(<<"rcont", p, 1>>))
Bound == \A k \in Keys : Len(disk[k]) <= MaxLen
View == <<disk, hs, n, Len(hist)>>
Emit == Len(hist') = MaxOps => PrintT(<<"VP-HIST", ToJson(hist')>>)
MSpec == Init /\ [][Next]_<<dvars, hist, n>>
=============================================================================

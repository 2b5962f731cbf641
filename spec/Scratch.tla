------------------------------ MODULE Scratch ------------------------------
(* Ring-style scratch memory: blocks are taken at the ring's head, may be freed in any order,   *)
(* and space comes back when the oldest blocks are free.                                        *)
(* sc = [base, cap, ring : sequence, oldest first, of [off, size, free]]                        *)
EXTENDS Integers, Sequences
VARIABLE sc
Slack(al) == 2 * al + 32        \* headers and alignment padding a request may cost
New(base, cap) == [base |-> base, cap |-> cap, ring |-> <<>>]
RECURSIVE Prune(_)
Prune(r) == IF r # <<>> /\ Head(r).free THEN Prune(Tail(r)) ELSE r
Busy(i) == ~sc.ring[i].free
Ok(size, al, off) == /\ off >= 0 /\ off + size <= sc.cap /\ (sc.base + off) % al = 0
                     /\ \A i \in 1..Len(sc.ring) : Busy(i) =>
                          off + size <= sc.ring[i].off \/ sc.ring[i].off + sc.ring[i].size <= off
Alloc(size, al, off) == Ok(size, al, off) /\ sc' = [sc EXCEPT !.ring = Append(@, [off |-> off, size |-> size, free |-> FALSE])]
\* the contiguous room that certainly exists in front of the oldest block
MustFit(size, al) ==
    LET n == size + Slack(al) IN
    IF sc.ring = <<>> THEN n <= sc.cap
    ELSE LET h == sc.ring[1].off  t == sc.ring[Len(sc.ring)].off + sc.ring[Len(sc.ring)].size
             hs == IF h < 24 THEN 0 ELSE h - 24 IN      \* the oldest block's header
         IF sc.ring[Len(sc.ring)].off >= h THEN n + 8 <= sc.cap - t \/ n + Slack(16) <= hs - Slack(64) ELSE n + Slack(64) <= hs - t
AllocNull(size, al) == ~MustFit(size, al) /\ UNCHANGED sc
Free(i) == /\ i \in 1..Len(sc.ring) /\ Busy(i)
           /\ sc' = [sc EXCEPT !.ring = Prune([@ EXCEPT ![i].free = TRUE])]
\* resizing: a smaller size keeps the block, a larger one takes a new block and frees the old one
ResizeSame(i, size) == i \in 1..Len(sc.ring) /\ Busy(i) /\ size <= sc.ring[i].size /\ UNCHANGED sc
ResizeMove(i, size, al, off) == /\ i \in 1..Len(sc.ring) /\ Busy(i) /\ size > sc.ring[i].size /\ Ok(size, al, off)
                                /\ sc' = [sc EXCEPT !.ring = Prune(Append([@ EXCEPT ![i].free = TRUE], [off |-> off, size |-> size, free |-> FALSE]))]
ResizeNull(i, size, al) == i \in 1..Len(sc.ring) /\ Busy(i) /\ size > sc.ring[i].size /\ AllocNull(size, al)
FreeAll == sc' = [sc EXCEPT !.ring = <<>>]
ScratchOK == \A i, j \in 1..Len(sc.ring) : (i # j /\ Busy(i) /\ Busy(j)) =>
    \/ sc.ring[i].off + sc.ring[i].size <= sc.ring[j].off \/ sc.ring[j].off + sc.ring[j].size <= sc.ring[i].off
=============================================================================

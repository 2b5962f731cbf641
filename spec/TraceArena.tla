----------------------------- MODULE TraceArena -----------------------------
EXTENDS Arena, TraceLib

TInit == l = 1 /\ ar = <<>>

Observed(a) ==      \* what the event reports about the arena after the call
    /\ ar'[a].used = Ev.used
    /\ Ev.pad = Pad(ar'[a], Ev.ral)
    /\ Ev.rem = ar'[a].cap - (Ev.used + Pad(ar'[a], Ev.ral))
    /\ Ev.intact    \* all live blocks and the bytes around the region are undisturbed
    /\ Ev.snaps = Len(ar'[a].snaps)
    /\ Good(ar'[a])

Blk == CHOOSE b \in ar[Ev.a].live : b.off = Ev.from /\ b.size = Ev.fsize

Step ==
  \/ Ev.op = "seg" /\ ar' = <<>>
  \/ Ev.op = "init" /\ ar' = (Ev.a :> NewArena(Ev.base, Ev.cap)) @@ ar
  \/ Ev.op = "sub" /\ Ev.off >= 0
       /\ \E u \in {Ev.pused} : LET A == ar[Ev.parent] IN
            /\ Placed(A, Ev.cap, 16, Ev.off, u)
            /\ ar' = (Ev.a :> NewArena((A.base + Ev.off) % 4096, Ev.cap)) @@
                     [ar EXCEPT ![Ev.parent].used = u, ![Ev.parent].live = @ \cup {[off |-> Ev.off, size |-> Ev.cap, al |-> 16]}]
            /\ Ev.intact
  \/ Ev.op = "sub" /\ Ev.off < 0 /\ AllocNull(Ev.parent, Ev.cap, 16) /\ ar[Ev.parent].used = Ev.pused /\ Ev.intact
  \/ Ev.op = "alloc" /\ Ev.off >= 0 /\ Ev.zero
       /\ Alloc(Ev.a, Ev.size, Ev.al, Ev.off, Ev.used) /\ Observed(Ev.a)
  \/ Ev.op = "alloc" /\ Ev.off = -1 /\ AllocNull(Ev.a, Ev.size, Ev.al) /\ Observed(Ev.a)
  \/ Ev.op = "resize" /\ Ev.size = 0 /\ Ev.off = -1 /\ ResizeZero(Ev.a, Blk) /\ Observed(Ev.a)
  \/ Ev.op = "resize" /\ Ev.off = Ev.from /\ ResizeSame(Ev.a, Blk, Ev.size) /\ Ev.kept /\ Observed(Ev.a)
  \/ Ev.op = "resize" /\ Ev.off >= 0 /\ Ev.kept
       /\ ResizeMove(Ev.a, Blk, Ev.size, Ev.al, Ev.off, Ev.used) /\ Observed(Ev.a)
  \/ Ev.op = "resize" /\ Ev.off = -1 /\ ResizeNull(Ev.a, Blk, Ev.size, Ev.al) /\ Observed(Ev.a)
  \/ Ev.op = "free" /\ UNCHANGED ar /\ Observed(Ev.a)
  \/ Ev.op = "snapb" /\ SnapBegin(Ev.a) /\ Observed(Ev.a)
  \/ Ev.op = "snape" /\ SnapEnd(Ev.a) /\ Observed(Ev.a)
  \/ Ev.op = "freeall" /\ FreeAll(Ev.a) /\ Observed(Ev.a)

TNext == More /\ IF ENABLED Step THEN Step /\ Advance ELSE Reject /\ UNCHANGED ar
TSpec == TInit /\ [][TNext]_<<l, ar>>
=============================================================================

------------------------- MODULE TraceStackScratch -------------------------
EXTENDS TraceLib
VARIABLES st, sc
S == INSTANCE Stack
C == INSTANCE Scratch
vars == <<st, sc>>
TInit == l = 1 /\ st = S!New(0, 0) /\ sc = C!New(0, 0)
SObs == Ev.intact /\ Ev.top = st'.top /\ Ev.total = st'.total /\ S!StackOK'
CObs == Ev.intact /\ C!ScratchOK'
Step ==
  \/ Ev.op = "seg" /\ st' = S!New(0, 0) /\ sc' = C!New(0, 0)
  \/ Ev.op = "stack" /\ st' = S!New(Ev.base, Ev.total) /\ UNCHANGED sc /\ SObs
  \/ Ev.op = "salloc" /\ UNCHANGED sc /\ S!Alloc(Ev.size, Ev.al, Ev.off, Ev.base, Ev.total, Ev.top, S!NeedsGrowth(Ev.size, Ev.al)) /\ SObs
  \/ Ev.op = "sfree" /\ UNCHANGED sc /\ S!Free /\ SObs
  \/ Ev.op = "sfreeall" /\ UNCHANGED sc /\ S!FreeAll /\ SObs
  \* releasing a stack gives its region back exactly once -- if the stack had taken it from an allocator
  \/ Ev.op = "sclose" /\ UNCHANGED sc /\ st' = S!New(0, 0) /\ Ev.freed = (IF Ev.own THEN 1 ELSE 0) /\ Ev.null = Ev.own /\ Ev.intact
  \/ Ev.op = "scratch" /\ sc' = C!New(Ev.base, Ev.cap) /\ UNCHANGED st /\ CObs
  \/ Ev.op = "calloc" /\ UNCHANGED st /\ Ev.off >= 0 /\ Ev.zero /\ C!Alloc(Ev.size, Ev.al, Ev.off) /\ CObs
  \/ Ev.op = "calloc" /\ UNCHANGED st /\ Ev.off = -1 /\ C!AllocNull(Ev.size, Ev.al) /\ CObs
  \/ Ev.op = "cresize" /\ UNCHANGED st /\ Ev.kept /\ (\E i \in 1..Len(sc.ring) : sc.ring[i].off = Ev.from /\ C!Busy(i) /\
        \/ Ev.off = Ev.from /\ C!ResizeSame(i, Ev.size)
        \/ Ev.off >= 0 /\ C!ResizeMove(i, Ev.size, Ev.al, Ev.off)
        \/ Ev.off = -1 /\ C!ResizeNull(i, Ev.size, Ev.al)) /\ CObs
  \/ Ev.op = "cfree" /\ UNCHANGED st /\ (\E i \in 1..Len(sc.ring) : sc.ring[i].off = Ev.off /\ C!Free(i)) /\ CObs
  \/ Ev.op = "cfreeall" /\ UNCHANGED st /\ C!FreeAll /\ CObs
TNext == More /\ IF ENABLED Step THEN Step /\ Advance ELSE Reject /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<l, vars>>
=============================================================================

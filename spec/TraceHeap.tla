----------------------------- MODULE TraceHeap ------------------------------
EXTENDS Heap, TraceLib
TInit == l = 1 /\ h = [live |-> {}]
Obs == Ev.intact /\ (Ev.analysis => Ev.used = Used' /\ Ev.count = Count') /\ HeapOK'
Step == \/ Ev.op = "seg" /\ h' = [live |-> {}]
        \/ Ev.op = "alloc" /\ Ev.zero /\ Alloc(Ev.id, Ev.addr, Ev.size, Ev.al) /\ Obs
        \/ Ev.op = "copy" /\ Ev.same /\ Alloc(Ev.id, Ev.addr, Ev.size, Ev.al) /\ Obs
        \/ Ev.op = "free" /\ Free(Ev.id) /\ Obs
        \/ Ev.op = "resize" /\ Ev.size = 0 /\ Ev.null /\ Free(Ev.id) /\ Obs
        \/ Ev.op = "resize" /\ Ev.size > 0 /\ ~Ev.null /\ Ev.kept /\ Ev.moved = FALSE /\ ResizeSame(Ev.id, Ev.size) /\ Obs
        \/ Ev.op = "resize" /\ ~Ev.null /\ Ev.kept /\ ResizeMove(Ev.id, Ev.addr, Ev.size, Ev.al) /\ Obs
        \/ Ev.op = "vm" /\ Ev.ok /\ Ev.zero /\ Ev.aligned /\ UNCHANGED h
TNext == More /\ IF ENABLED Step THEN Step /\ Advance ELSE Reject /\ UNCHANGED h
TSpec == TInit /\ [][TNext]_<<l, h>>
=============================================================================

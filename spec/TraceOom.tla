------------------------------ MODULE TraceOom ------------------------------
EXTENDS Oom, TraceLib
VARIABLES w, live
SInit == l = 1 /\ w = World0 /\ live = 0
Do == CASE Ev.op = "seg" -> << TRUE, World0, 0 >>
        [] Ev.op = "done" -> << Ev.live = 0, World0, 0 >>
        [] Ev.op = "whole" -> << Whole(Ev.ok, Ev.refok, Ev.same, Ev.doc, Ev.den, Ev.left), w, live >>
        [] Ev.op \in {"stop", "crash"} -> << FALSE, w, live >>
        [] OTHER -> << Outcome(w, live, Ev, Ev.ok, Ev.den, Ev.o, Ev.live), Ev.o, Ev.live >>
SNext == More /\ LET o == TLCEval(Do) IN IF o[1] THEN w' = o[2] /\ live' = o[3] /\ Advance ELSE Reject /\ UNCHANGED <<w, live>>
TSpec == SInit /\ [][SNext]_<<l, w, live>>
=============================================================================

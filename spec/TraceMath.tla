----------------------------- MODULE TraceMath -----------------------------
EXTENDS Scalar, TraceLib
MInit == l = 1
Ok == CASE Ev.op = "seg" -> TRUE
        [] Ev.op = "f" -> RightS(Ev.f, Ev.n, Ev.w, Ev.d, Ev.apx, Ev.a, Ev.r)
        [] Ev.op = "half" -> Half1(Ev.h, Ev.x, Ev.back)
        [] Ev.op = "tohalf" -> ToHalf(Ev.x, Ev.h)
        [] OTHER -> FALSE
MNext == More /\ LET ok == TLCEval(Ok) IN IF ok THEN Advance ELSE Reject
TSpec == MInit /\ [][MNext]_l
=============================================================================

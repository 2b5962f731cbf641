---------------------------- MODULE TraceSocket ----------------------------
EXTENDS Sockets, TraceLib
VARIABLE w
SInit == l = 1 /\ w = World0
Do == CASE Ev.op = "seg" -> << TRUE, World0 >>
        [] Ev.op = "create" -> Create(w, Ev.i, Ev.proto, Ev.mode, Ev.nb, Ev.to, Ev.ok, Ev.mine)
        [] Ev.op = "refuse" -> << ~Ev.ok, w >>
        [] Ev.op = "listen" -> Listen(w, Ev.i, Ev.n, Ev.r)
        [] Ev.op = "accept" -> Accept(w, Ev.i, Ev.j, Ev.ok, Ev.from)
        [] Ev.op = "address" -> Address(w, Ev.i, Ev.r, Ev.mine)
        [] Ev.op = "send" -> Send(w, Ev.i, Ev.d, Ev.r)
        [] Ev.op = "recv" -> Recv(w, Ev.i, Ev.n, Ev.r, Ev.d)
        [] Ev.op = "sendto" -> SendU(w, Ev.i, Ev.to, Ev.d, Ev.r)
        [] Ev.op = "recvfrom" -> (IF w.h[Ev.i].k = "udp" THEN RecvU(w, Ev.i, Ev.n, Ev.r, Ev.d, Ev.from) ELSE Recv(w, Ev.i, Ev.n, Ev.r, Ev.d))
        [] Ev.op = "select" -> Select(w, Ev.s, Ev.ms, Ev.r, Ev.el)
        [] Ev.op = "close" -> Close(w, Ev.i)
        [] Ev.op = "bulk" -> Bulk(w, Ev.i, Ev.j, Ev.n, Ev.sent, Ev.got, Ev.same)
        [] Ev.op = "wake" -> Wake(w, Ev.i, Ev.j, Ev.d, Ev.r, Ev.e)
        [] OTHER -> << FALSE, w >>
\* no handle is left behind, none is closed by mistake
Fds(v) == Ev.op \in {"seg"} \/ Ev.fds = Cardinality(Open(v))
SNext == More /\ LET o == TLCEval(Do) IN IF o[1] /\ Fds(o[2]) THEN w' = o[2] /\ Advance ELSE Reject /\ UNCHANGED w
TSpec == SInit /\ [][SNext]_<<l, w>>
=============================================================================

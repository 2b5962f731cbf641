------------------------------ MODULE TraceHost ------------------------------
EXTENDS Host, TraceLib
VARIABLES env, copies, lib
NoLibs == [i \in 0..1 |-> Lib0]
Empty == [x \in {} |-> <<>>]
SInit == l = 1 /\ env = Empty /\ copies = <<>> /\ lib = NoLibs
V(on, v) == [on |-> on, v |-> v]
Do == CASE Ev.op = "seg" -> <<TRUE, Empty, <<>>, NoLibs>>
        [] Ev.op = "set" -> <<TRUE, Set(env, Ev.n, Ev.v), copies, lib>>
        [] Ev.op = "unset" -> <<TRUE, Unset(env, Ev.n), copies, lib>>
        \* the three ways of asking agree; what the first hands out is kept as a copy
        [] Ev.op = "get" -> LET a == Lookup(env, Ev.n) IN <<a = V(Ev.on, Ev.v) /\ Ev.same, env, Append(copies, a), lib>>
        \* the copies are what they were
        [] Ev.op = "copies" -> <<Len(Ev.c) = Len(copies) /\ \A k \in 1..Len(copies) : copies[k].v = Ev.c[k], env, <<>>, lib>>
        \* a buffer of len bytes, every byte of it 171 before, with some more behind it; nothing is left behind
        [] Ev.op = "command" -> <<Ev.ok /\ ~Ev.left /\ Ev.buf = Into([k \in 1..Len(Ev.buf) |-> 171], SubSeq(Ev.out, 1, Min(Len(Ev.out), Ev.len))), env, copies, lib>>
        [] Ev.op = "commandstr" -> <<Ev.str = Ev.out /\ ~Ev.left, env, copies, lib>>
        [] Ev.op = "load" -> <<Ev.ok /\ Ev.one, env, copies, [lib EXCEPT ![Ev.i] = Load(@)]>>
        [] Ev.op = "call" -> LET x == Call(lib[Ev.i], Ev.i + 1) IN <<Ev.ok /\ Ev.v = x.count, env, copies, [lib EXCEPT ![Ev.i] = x]>>
        [] Ev.op = "nosym" -> <<~Ev.ok, env, copies, lib>>
        [] Ev.op = "nolib" -> <<~Ev.ok, env, copies, lib>>
        [] Ev.op = "unload" -> LET x == Unload(lib[Ev.i]) IN <<Ev.there <=> x.refs > 0, env, copies, [lib EXCEPT ![Ev.i] = x]>>
        [] Ev.op = "cores" -> <<Ev.ok /\ Ev.cores = Ev.online /\ Ev.threads = Ev.sum /\ Ev.cores > 0, env, copies, lib>>
        [] OTHER -> <<FALSE, env, copies, lib>>
SNext == More /\ LET o == TLCEval(Do) IN IF o[1] THEN env' = o[2] /\ copies' = o[3] /\ lib' = o[4] /\ Advance ELSE Reject /\ UNCHANGED <<env, copies, lib>>
TSpec == SInit /\ [][SNext]_<<l, env, copies, lib>>
=============================================================================

----------------------------- MODULE TraceJobs -----------------------------
EXTENDS Jobs, TraceLib
VARIABLE rest   \* the workers have come to rest and nothing has been handed out since
Blank == pend' = [p \in Prio |-> <<>>] /\ fn' = <<>> /\ run' = {} /\ poss' = {} /\ nt' = 0 /\ nm' = 0 /\ mode' = "none"
TInit == l = 1 /\ pend = [p \in Prio |-> <<>>] /\ fn = <<>> /\ run = {} /\ poss = {} /\ nt = 0 /\ nm = 0 /\ mode = "none" /\ rest = FALSE
Step == \/ Ev.op = "seg" /\ Blank
        \/ Ev.op = "init" /\ JInit(Ev.t, Ev.m)
        \/ Ev.op = "enq" /\ Enqueue(Ev.p, Ev.id, Ev.f, Ev.res)
        \/ Ev.op = "proc" /\ Process
        \/ Ev.op = "procd" /\ Processed(Ev.res)
        \/ Ev.op = "start" /\ Start(Ev.id, Ev.f, Ev.w)
        \/ Ev.op = "fin" /\ Finish(Ev.id, Ev.w)
        \/ Ev.op = "empty" /\ AskEmpty(Ev.p, Ev.res)
        \/ Ev.op = "full" /\ AskFull(Ev.p, Ev.res)
        \/ Ev.op = "query" /\ AskAll(Ev.e, Ev.f, Ev.ea, Ev.fa)
        \/ Ev.op = "done" /\ IF rest THEN AskDoneSettled(Ev.res) ELSE AskDone(Ev.res)
        \/ Ev.op = "settle" /\ Settle
        \/ Ev.op = "release" /\ UNCHANGED jvars
        \/ Ev.op = "drained" /\ Drained(Ev.res)
        \/ Ev.op = "freeing" /\ Free
        \/ Ev.op = "freed" /\ Freed
        \* that freeing ends is judged by the check of C30
        \/ Ev.op \in {"stuck", "endless"} /\ mode = "free" /\ "VP_FREE_MAY_HANG" \in DOMAIN IOEnv /\ UNCHANGED jvars
TNext == More /\ IF ENABLED Step THEN Step /\ Advance /\ rest' = (Ev.op = "settle" \/ (rest /\ Ev.op \in {"enq", "empty", "full", "query", "done"}))
                 ELSE Reject /\ UNCHANGED <<jvars, rest>>
TSpec == TInit /\ [][TNext]_<<l, jvars, rest>>
=============================================================================

---------------------------- MODULE TraceThreads ----------------------------
EXTENDS Threads, TraceLib
TInit == l = 1 /\ Start0
Step == \/ Ev.op = "seg" /\ Reset
        \/ Ev.op = "minit" /\ MInit(Ev.m, Ev.res)
        \/ Ev.op = "mdestroy" /\ MDestroy(Ev.m, Ev.res)
        \/ Ev.op = "lkb" /\ LockCall(Ev.t, Ev.m)
        \/ Ev.op = "lke" /\ LockDone(Ev.t, Ev.m)
        \/ Ev.op = "ulb" /\ UnlockCall(Ev.t, Ev.m)
        \/ Ev.op = "ule" /\ UnlockDone(Ev.t, Ev.m)
        \/ Ev.op = "trb" /\ TryCall(Ev.t, Ev.m)
        \/ Ev.op = "tre" /\ TryDone(Ev.t, Ev.m, Ev.res)
        \/ Ev.op = "sinit" /\ SInit(Ev.s)
        \/ Ev.op = "sdestroy" /\ SDestroy(Ev.s)
        \/ Ev.op = "pob" /\ PostCall(Ev.t, Ev.s, Ev.n)
        \/ Ev.op = "poe" /\ PostDone(Ev.t, Ev.s, Ev.n)
        \/ Ev.op = "wab" /\ WaitCall(Ev.t, Ev.s)
        \/ Ev.op = "wae" /\ WaitDone(Ev.t, Ev.s)
        \/ Ev.op = "twb" /\ TwCall(Ev.t, Ev.s)
        \/ Ev.op = "twe" /\ TwDone(Ev.t, Ev.s, Ev.res)
        \/ Ev.op = "tinit" /\ TInitT(Ev.t, Ev.x, Ev.nowait)
        \/ Ev.op = "stb" /\ StartCall(Ev.t, Ev.x)
        \/ Ev.op = "ste" /\ StartDone(Ev.t, Ev.x, Ev.res)
        \/ Ev.op = "begin" /\ Begin(Ev.x, Ev.own)
        \/ Ev.op = "end" /\ End(Ev.x, Ev.ret)
        \/ Ev.op = "rnb" /\ RunCall(Ev.t, Ev.x)
        \/ Ev.op = "rne" /\ RunDone(Ev.t, Ev.x, Ev.res)
        \/ Ev.op = "jnb" /\ JoinCall(Ev.t, Ev.x)
        \/ Ev.op = "jne" /\ JoinDone(Ev.t, Ev.x, Ev.ret, Ev.run)
        \/ Ev.op = "tdb" /\ DestroyCall(Ev.t, Ev.x)
        \/ Ev.op = "tde" /\ DestroyDone(Ev.t, Ev.x, Ev.ret, Ev.run)
        \/ Ev.op = "fail" /\ FailNext
        \/ Ev.op = "gtb" /\ GateCall(Ev.t, Ev.g)
        \/ Ev.op = "gte" /\ GateDone(Ev.t, Ev.g)
        \/ Ev.op = "open" /\ GateOpen(Ev.g)
        \/ Ev.op = "binit" /\ BInit
        \/ Ev.op = "bdestroy" /\ BDestroy
        \/ Ev.op = "tgb" /\ TargetCall(Ev.t, Ev.n)
        \/ Ev.op = "tge" /\ TargetDone(Ev.t, Ev.n)
        \/ Ev.op = "rb" /\ ReachCall(Ev.t)
        \/ Ev.op = "re" /\ ReachDone(Ev.t, Ev.n)
        \/ Ev.op = "rwe" /\ PassDone(Ev.t)
        \/ Ev.op = "stuck" /\ Stuck
TNext == More /\ IF ENABLED Step THEN Step /\ Advance ELSE Reject /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_<<l, tvars>>
=============================================================================

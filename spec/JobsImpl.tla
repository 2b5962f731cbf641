------------------------------ MODULE JobsImpl ------------------------------
(* The hand-off algorithm of the job system, one atomic memory access per step, run in lock step with the user's   *)
(* specification (Jobs): every visible step must be one Jobs allows (bad never becomes TRUE), a job waiting in a   *)
(* continually processed system starts, and freeing returns.                                                     *)
(* FreeFix = FALSE is the code as it was: the worker's plain store of BUSY can overwrite the main thread's TERM,   *)
(* and free then waits for ever (the liveness property has a counterexample).                                     *)
EXTENDS Jobs, TLC
CONSTANTS W, M, MaxJobs, Prios, FreeFix
VARIABLES q,      \* q[p]: the ring of p: job ids
          st,     \* st[w]: READY | BUSY | WAITING | TERM
          job,    \* job[w]: the worker's job slot
          wpc, mpc, mi, counter, seen, bad, frees
ivars == <<q, st, job, wpc, mpc, mi, counter, seen, bad, frees>>
vars == <<jvars, ivars>>
Workers == 1..W
Chance == <<2, 3, 5, 7, 11>>
Cyc == 6
Vis(A) == IF ENABLED A THEN A /\ bad' = bad ELSE bad' = TRUE /\ UNCHANGED jvars
Quiet == UNCHANGED <<jvars, bad>>
Init == /\ pend = [p \in Prio |-> <<>>] /\ fn = <<>> /\ run = {} /\ poss = {<<Zero, FALSE>>} /\ nt = W /\ nm = M /\ mode = "idle"
        /\ q = [p \in Prio |-> <<>>] /\ st = [w \in Workers |-> "WAITING"] /\ job = [w \in Workers |-> 0]
        /\ wpc = [w \in Workers |-> "load"] /\ mpc = "main" /\ mi = 0 /\ counter \in 0..Cyc - 1 /\ seen = FALSE /\ bad = FALSE /\ frees = FALSE
AllEmpty == \A p \in Prio : q[p] = <<>>
\* ---- main thread
MEnq == /\ mpc = "main" /\ Len(fn) < MaxJobs
        /\ \E p \in Prios : LET ok == Len(q[p]) < M IN
             /\ Vis(Enqueue(p, Len(fn) + 1, 0, ok))
             /\ q' = IF ok THEN [q EXCEPT ![p] = Append(@, Len(fn) + 1)] ELSE q
        /\ UNCHANGED <<st, job, wpc, mpc, mi, counter, seen, frees>>
MAsk == /\ mpc = "main" /\ Vis(AskAll([i \in 1..5 |-> IF q[i - 1] = <<>> THEN 1 ELSE 0], [i \in 1..5 |-> IF Len(q[i - 1]) = M THEN 1 ELSE 0], AllEmpty, \A p \in Prio : Len(q[p]) = M))
        /\ UNCHANGED <<q, st, job, wpc, mpc, mi, counter, seen, frees>>
MProc == /\ mpc = "main" /\ Vis(Process) /\ seen' = ~AllEmpty
         /\ mpc' = (IF AllEmpty THEN "procret" ELSE "proc") /\ mi' = 1 /\ UNCHANGED <<q, st, job, wpc, counter, frees>>
MLoad == /\ mpc = "proc" /\ Quiet
         /\ IF mi > W THEN mpc' = "procret" /\ UNCHANGED <<mi, counter, q, job>>
            ELSE IF st[mi] # "WAITING" THEN mi' = mi + 1 /\ UNCHANGED <<mpc, counter, q, job>>
            ELSE LET r == counter
                     ok == {p \in Prio : q[p] # <<>> /\ r % Chance[p + 1] = 0}
                 IN /\ counter' = (counter + 1) % Cyc
                    /\ IF ok = {} THEN mi' = mi + 1 /\ UNCHANGED <<mpc, q, job>>
                       ELSE LET p == CHOOSE x \in ok : \A y \in ok : x <= y IN
                            /\ job' = [job EXCEPT ![mi] = Head(q[p])] /\ q' = [q EXCEPT ![p] = Tail(@)] /\ mpc' = "hand" /\ UNCHANGED mi
         /\ UNCHANGED <<st, wpc, seen, frees>>
MHand == mpc = "hand" /\ st' = [st EXCEPT ![mi] = "READY"] /\ mi' = mi + 1 /\ mpc' = "proc" /\ Quiet /\ UNCHANGED <<q, job, wpc, counter, seen, frees>>
MRet == mpc = "procret" /\ Vis(Processed(seen)) /\ mpc' = "main" /\ UNCHANGED <<q, st, job, wpc, mi, counter, seen, frees>>
\* done: the statuses are read one by one, then the queues
MDone == mpc = "main" /\ mpc' = "done" /\ mi' = 1 /\ Quiet /\ UNCHANGED <<q, st, job, wpc, counter, seen, frees>>
MDoneStep == /\ mpc = "done"
             /\ IF mi > W THEN mpc' = "main" /\ Vis(AskDone(AllEmpty)) /\ UNCHANGED mi
                ELSE IF st[mi] # "WAITING" THEN mpc' = "main" /\ Vis(AskDone(FALSE)) /\ UNCHANGED mi
                ELSE mi' = mi + 1 /\ UNCHANGED mpc /\ Quiet
             /\ UNCHANGED <<q, st, job, wpc, counter, seen, frees>>
MFree == mpc = "main" /\ frees /\ Vis(Free) /\ mpc' = "term" /\ mi' = 1 /\ UNCHANGED <<q, st, job, wpc, counter, seen, frees>>
Decide == mpc = "main" /\ ~frees /\ frees' = TRUE /\ Quiet /\ UNCHANGED <<q, st, job, wpc, mpc, mi, counter, seen>>
MTerm == mpc = "term" /\ st' = [st EXCEPT ![mi] = "TERM"] /\ mpc' = "join" /\ Quiet /\ UNCHANGED <<q, job, wpc, mi, counter, seen, frees>>
MJoin == /\ mpc = "join" /\ wpc[mi] = "end"
         /\ IF mi = W THEN Vis(Freed) /\ mpc' = "end" /\ UNCHANGED mi ELSE mi' = mi + 1 /\ mpc' = "term" /\ Quiet
         /\ UNCHANGED <<q, st, job, wpc, counter, seen, frees>>
\* ---- workers
Go(w, pc) == wpc' = [wpc EXCEPT ![w] = pc]
WLoad(w) == /\ wpc[w] = "load" /\ Quiet
            /\ Go(w, CASE st[w] = "READY" -> "take" [] st[w] = "TERM" -> "end" [] OTHER -> "load")
            /\ UNCHANGED <<q, st, job, mpc, mi, counter, seen, frees>>
WTake(w) == /\ wpc[w] = "take" /\ Quiet
            /\ IF FreeFix /\ st[w] # "READY" THEN Go(w, "load") /\ UNCHANGED st
               ELSE st' = [st EXCEPT ![w] = "BUSY"] /\ Go(w, "call")
            /\ UNCHANGED <<q, job, mpc, mi, counter, seen, frees>>
WCall(w) == wpc[w] = "call" /\ Vis(Start(job[w], 0, w)) /\ Go(w, "in") /\ UNCHANGED <<q, st, job, mpc, mi, counter, seen, frees>>
WRet(w) == wpc[w] = "in" /\ Vis(Finish(job[w], w)) /\ Go(w, "back") /\ UNCHANGED <<q, st, job, mpc, mi, counter, seen, frees>>
WBack(w) == /\ wpc[w] = "back" /\ Quiet /\ Go(w, "load")
            /\ st' = IF st[w] = "BUSY" THEN [st EXCEPT ![w] = "WAITING"] ELSE st
            /\ UNCHANGED <<q, job, mpc, mi, counter, seen, frees>>
Worker(w) == WLoad(w) \/ WTake(w) \/ WCall(w) \/ WRet(w) \/ WBack(w)
MainStep == MLoad \/ MHand \/ MRet \/ MDoneStep \/ MTerm \/ MJoin
Next == MEnq \/ MAsk \/ MProc \/ MDone \/ MFree \/ Decide \/ MainStep \/ (\E w \in Workers : Worker(w))
Fair == /\ WF_vars(MainStep) /\ WF_vars(MFree) /\ SF_vars(MProc) /\ \A w \in Workers : WF_vars(Worker(w))
Spec == Init /\ [][Next]_vars /\ Fair
NeverBad == ~bad
HandOK == \A v, w \in Workers : v # w /\ st[v] \in {"READY", "BUSY"} /\ st[w] \in {"READY", "BUSY"} => job[v] # job[w]
FreeReturns == (mpc = "term") ~> (mpc = "end")
\* as long as nobody frees the pool every accepted job starts
Starts == \A id \in 1..MaxJobs : (\E p \in Prio : \E k \in DOMAIN pend[p] : pend[p][k] = id) ~> (frees \/ \A p \in Prio : \A k \in DOMAIN pend[p] : pend[p][k] # id)
=============================================================================

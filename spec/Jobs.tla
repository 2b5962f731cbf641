-------------------------------- MODULE Jobs --------------------------------
(* The job system as its user sees it.  The main thread enqueues, processes and asks; workers start and finish     *)
(* jobs at any moment.  A process call hands jobs from the front of each queue to idle workers; which worker got   *)
(* what stays hidden until the job starts, so the specification carries the SET of hand-outs that are consistent   *)
(* with everything seen so far.  A hand-out is a function h: of queue p the first h[p] unstarted jobs are in hand. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES pend,   \* pend[p]: accepted, not started, in enqueue order
          fn,     \* fn[id]: the procedure the job was enqueued with (ids of one pool are 1, 2, ...)
          run,    \* jobs being executed: set of <<worker, id>>
          poss,   \* consistent hand-outs: set of <<h, busy>>; busy: some queue was non-empty when the current process call began
          nt, nm, \* workers and queue limit
          mode    \* "none" | "idle" | "proc" (main is inside process) | "free" (main is inside free) | "gone"
jvars == <<pend, fn, run, poss, nt, nm, mode>>
Prio == 0..4
Zero == [p \in Prio |-> 0]
RECURSIVE Sum(_, _)
Sum(h, p) == IF p = 0 THEN h[0] ELSE h[p] + Sum(h, p - 1)
Tot(h) == Sum(h, 4)
\* hand-outs reachable by handing more jobs to idle workers
RECURSIVE Grow(_, _, _, _)
Grow(S, pd, cap, k) ==
  IF k = 0 THEN S
  ELSE LET S2 == S \cup {<<[x[1] EXCEPT ![p] = @ + 1], x[2]>> : <<x, p>> \in {y \in S \X Prio : Tot(y[1][1]) < cap /\ y[1][1][y[2]] < Len(pd[y[2]])}}
       IN IF S2 = S THEN S ELSE Grow(S2, pd, cap, k - 1)
Idle(r) == nt - Cardinality(r)
QEmpty(h, p) == h[p] = Len(pend[p])
QFull(h, p) == Len(pend[p]) - h[p] = nm
Known(S) == S # {} /\ poss' = S      \* what was observed must be possible

JInit(t, m) == /\ mode \in {"none", "gone"}
               /\ pend' = [p \in Prio |-> <<>>] /\ fn' = <<>> /\ run' = {} /\ poss' = {<<Zero, FALSE>>} /\ nt' = t /\ nm' = m /\ mode' = "idle"
\* accepted unless the queue is full, refused only then; a refused job leaves no trace
Enqueue(p, id, f, res) ==
  /\ mode = "idle" /\ Known({x \in poss : res = ~QFull(x[1], p)})
  /\ id = Len(fn) + 1 /\ fn' = Append(fn, f)
  /\ pend' = IF res THEN [pend EXCEPT ![p] = Append(@, id)] ELSE pend
  /\ UNCHANGED <<run, nt, nm, mode>>
Process ==
  /\ mode = "idle" /\ mode' = "proc"
  /\ Known(Grow({<<x[1], \E p \in Prio : ~QEmpty(x[1], p)>> : x \in poss}, pend, Idle(run), nt))
  /\ UNCHANGED <<pend, fn, run, nt, nm>>
Processed(res) == mode = "proc" /\ mode' = "idle" /\ Known({x \in poss : x[2] = res}) /\ UNCHANGED <<pend, fn, run, nt, nm>>
Regrow(S, pd, r) == IF mode = "proc" THEN Grow(S, pd, Idle(r), nt) ELSE S
\* a worker that executes nothing starts a job that was handed out: the first of its queue that ... or one behind it that is in hand too
Start(id, f, w) ==
  /\ mode \in {"idle", "proc", "free"}
  /\ \A x \in run : x[1] # w
  /\ w \in 1..nt
  /\ \E p \in Prio : \E k \in 1..Len(pend[p]) :
       /\ pend[p][k] = id /\ fn[id] = f
       /\ LET pd == [pend EXCEPT ![p] = SubSeq(@, 1, k - 1) \o SubSeq(@, k + 1, Len(@))]
              r == run \cup {<<w, id>>}
              S == {<<[x[1] EXCEPT ![p] = @ - 1], x[2]>> : x \in {y \in poss : y[1][p] >= k}}
          IN pend' = pd /\ run' = r /\ Known(Regrow({x \in S : Tot(x[1]) <= Idle(r)}, pd, r))
  /\ UNCHANGED <<fn, nt, nm, mode>>
Finish(id, w) ==
  /\ <<w, id>> \in run /\ run' = run \ {<<w, id>>}
  /\ Known(Regrow(poss, pend, run \ {<<w, id>>}))
  /\ UNCHANGED <<pend, fn, nt, nm, mode>>
\* questions the main thread may ask
AskEmpty(p, res) == mode = "idle" /\ Known({x \in poss : res = QEmpty(x[1], p)}) /\ UNCHANGED <<pend, fn, run, nt, nm, mode>>
AskFull(p, res) == mode = "idle" /\ Known({x \in poss : res = QFull(x[1], p)}) /\ UNCHANGED <<pend, fn, run, nt, nm, mode>>
AskAll(e, f, ea, fa) ==
  /\ mode = "idle"
  /\ Known({x \in poss : /\ \A p \in Prio : (e[p + 1] = 1) = QEmpty(x[1], p) /\ (f[p + 1] = 1) = QFull(x[1], p)})
  /\ ea = (\A p \in Prio : e[p + 1] = 1) /\ fa = (\A p \in Prio : f[p + 1] = 1)
  /\ UNCHANGED <<pend, fn, run, nt, nm, mode>>
AllOver == run = {} /\ \A p \in Prio : pend[p] = <<>>
\* done is never claimed early ...
AskDone(res) == mode = "idle" /\ (res => AllOver) /\ UNCHANGED jvars
\* every worker has come to rest: whatever was in hand has been started
Settle == mode = "idle" /\ Known({x \in poss : Tot(x[1]) = 0}) /\ UNCHANGED <<pend, fn, run, nt, nm, mode>>
\* ... and once the workers rest it is not withheld
AskDoneSettled(res) == mode = "idle" /\ res = AllOver /\ UNCHANGED jvars
\* process again and again until done: it does become done
Drained(res) == mode = "proc" /\ mode' = "idle" /\ res /\ AllOver /\ poss' = {<<Zero, FALSE>>} /\ UNCHANGED <<pend, fn, run, nt, nm>>
\* freeing lets running jobs end; jobs in hand may still start, others are dropped; afterwards nothing runs
Free == mode = "idle" /\ mode' = "free" /\ UNCHANGED <<pend, fn, run, poss, nt, nm>>
Freed == mode = "free" /\ mode' = "gone" /\ run = {} /\ UNCHANGED <<pend, fn, run, poss, nt, nm>>

JobsOK == /\ \A x \in run, y \in run : x # y => x[1] # y[1] /\ x[2] # y[2]
          /\ \A p, q \in Prio : \A i \in DOMAIN pend[p], j \in DOMAIN pend[q] : pend[p][i] = pend[q][j] => p = q /\ i = j
          /\ \A x \in run : \A p \in Prio : \A i \in DOMAIN pend[p] : pend[p][i] # x[2]
          /\ mode # "none" => poss # {}
          /\ \A x \in poss : Tot(x[1]) <= Idle(run) /\ \A p \in Prio : x[1][p] <= Len(pend[p]) /\ Len(pend[p]) - x[1][p] <= nm
=============================================================================

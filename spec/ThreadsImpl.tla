---------------------------- MODULE ThreadsImpl ----------------------------
(* Two or three threads run small programs over one mutex, one semaphore and the barrier.  The mutex and the         *)
(* semaphore are atomic; the barrier is the code's algorithm (two mutexes, one semaphore, three counters), step by    *)
(* step.  Every call and return is shown to the observer (Threads): bad stays FALSE, i.e. the observer accepts all    *)
(* that correct primitives can do, and whenever nobody can move the observer agrees that this is right.               *)
EXTENDS Threads, TLC, Json
CONSTANTS Kind, N, Len3, Fault
VARIABLES prog, pc, st, lk, val, b, bad, go
ivars == <<prog, pc, st, lk, val, b, bad, go>>
vars == <<tvars, ivars>>
Me == 1..N
Ops == CASE Kind = "mutex" -> {"lock", "unlock", "try"} [] Kind = "sem" -> {"wait", "tw", "post1", "post2"} [] OTHER -> {"rw", "reach"}
Seqs(k) == UNION {[1..j -> Ops] : j \in 0..k}
\* a well-formed program: no lock while holding, unlock only what one holds; a successful try is followed by an unlock
RECURSIVE Held(_, _, _)
Held(p, i, h) == IF i > Len(p) THEN ~h ELSE IF p[i] = "lock" THEN ~h /\ Held(p, i + 1, TRUE) ELSE IF p[i] = "unlock" THEN h /\ Held(p, i + 1, FALSE) ELSE Held(p, i + 1, h)
Good(p) == Kind # "mutex" \/ Held(p, 1, FALSE)
Progs == {p \in Seqs(Len3) : Good(p)}
\* barrier: every round each of the N threads arrives once; thread 0 sets the target of each round
BProgs == {p \in [1..Len3 -> Ops] : TRUE}
BarOps == [t |-> 0]
Init == /\ own = [m \in MX |-> -1] /\ tch = [m \in MX |-> {}] /\ sem = [s \in MX |-> [pb |-> 0, pd |-> 0, tk |-> 0, pn |-> {}]]
        /\ thr = [x \in T |-> [st |-> IF x \in Me THEN "run" ELSE "none", up |-> FALSE, nowait |-> FALSE, ret |-> 0]]
        /\ cur = [t \in T |-> <<>>] /\ may = [t \in T |-> FALSE] /\ gate = {} /\ bar = [rnd |-> 0, tgt |-> 0, beg |-> 0, com |-> 0]
        /\ brd = [t \in T |-> <<0, 0>>] /\ nums = <<>> /\ fail = FALSE
        /\ prog \in [Me -> IF Kind = "barrier" THEN BProgs ELSE Progs]
        /\ pc = [t \in 0..N |-> 1] /\ st = [t \in 0..N |-> "call"] /\ lk = -1 /\ val = 0
        /\ b = [target |-> 0, current |-> 0, waiting |-> 0, start |-> -1, mutex |-> -1, release |-> 0, n |-> [t \in 0..N |-> 0], next |-> [t \in 0..N |-> ""]]
        /\ bad = FALSE /\ go = FALSE
Vis(A) == IF ENABLED A THEN A /\ bad' = bad ELSE bad' = TRUE /\ UNCHANGED tvars
Quiet == UNCHANGED <<tvars, bad>>
K == UNCHANGED <<prog, go>>
To(t, s) == st' = [st EXCEPT ![t] = s] /\ pc' = pc
NextOp(t) == st' = [st EXCEPT ![t] = "call"] /\ pc' = [pc EXCEPT ![t] = @ + 1]
Op(t) == prog[t][pc[t]]
Prims == <<lk, val>>
Live(t) == t \in Me /\ pc[t] <= Len(prog[t])
Go == ~go /\ go' = TRUE /\ UNCHANGED <<tvars, prog, pc, st, lk, val, b, bad>>
\* ---- mutex and semaphore programs
Call(t) == /\ Live(t) /\ st[t] = "call" /\ Kind # "barrier"
           /\ CASE Op(t) = "lock" -> Vis(LockCall(t, 0)) [] Op(t) = "unlock" -> Vis(UnlockCall(t, 0)) [] Op(t) = "try" -> Vis(TryCall(t, 0))
                [] Op(t) = "wait" -> Vis(WaitCall(t, 0)) [] Op(t) = "tw" -> Vis(TwCall(t, 0)) [] Op(t) = "post1" -> Vis(PostCall(t, 0, 1)) [] OTHER -> Vis(PostCall(t, 0, 2))
           /\ To(t, "eff") /\ UNCHANGED <<lk, val, b>> /\ K
Eff(t) == /\ Live(t) /\ st[t] = "eff" /\ Quiet
          /\ CASE Op(t) = "lock" -> lk = -1 /\ lk' = t /\ To(t, "ret") /\ UNCHANGED val
               [] Op(t) = "unlock" -> lk' = -1 /\ To(t, "ret") /\ UNCHANGED val
               [] Op(t) = "try" -> IF lk = -1 THEN lk' = t /\ To(t, "ok") /\ UNCHANGED val ELSE To(t, "no") /\ UNCHANGED <<lk, val>>
               [] Op(t) = "wait" -> val > 0 /\ val' = val - 1 /\ To(t, "ret") /\ UNCHANGED lk
               [] Op(t) = "tw" -> IF val > 0 THEN val' = val - 1 /\ To(t, "ok") /\ UNCHANGED lk ELSE To(t, "no") /\ UNCHANGED <<lk, val>>
               [] Op(t) = "post1" -> val' = val + 1 /\ To(t, "ret") /\ UNCHANGED lk
               [] OTHER -> val' = val + 1 /\ To(t, "half") /\ UNCHANGED lk
          /\ UNCHANGED b /\ K
Half(t) == Live(t) /\ st[t] = "half" /\ val' = val + 1 /\ To(t, "ret") /\ UNCHANGED <<lk, b>> /\ Quiet /\ K
Ret(t) == /\ Live(t) /\ st[t] \in {"ret", "ok", "no"} /\ UNCHANGED <<lk, val, b>> /\ K /\ Kind # "barrier"
          /\ CASE Op(t) = "lock" -> Vis(LockDone(t, 0)) /\ NextOp(t) [] Op(t) = "unlock" -> Vis(UnlockDone(t, 0)) /\ NextOp(t)
               [] Op(t) = "try" -> IF st[t] = "ok" THEN Vis(TryDone(t, 0, TRUE)) /\ To(t, "give") ELSE Vis(TryDone(t, 0, FALSE)) /\ NextOp(t)
               [] Op(t) = "wait" -> Vis(WaitDone(t, 0)) /\ NextOp(t) [] Op(t) = "tw" -> Vis(TwDone(t, 0, st[t] = "ok")) /\ NextOp(t)
               [] Op(t) = "post1" -> Vis(PostDone(t, 0, 1)) /\ NextOp(t) [] OTHER -> Vis(PostDone(t, 0, 2)) /\ NextOp(t)
Give(t) == \/ Live(t) /\ st[t] = "give" /\ Vis(UnlockCall(t, 0)) /\ To(t, "gave") /\ UNCHANGED <<lk, val, b>> /\ K
           \/ Live(t) /\ st[t] = "gave" /\ lk' = -1 /\ Quiet /\ To(t, "given") /\ UNCHANGED <<val, b>> /\ K
           \/ Live(t) /\ st[t] = "given" /\ Vis(UnlockDone(t, 0)) /\ NextOp(t) /\ UNCHANGED <<lk, val, b>> /\ K
\* ---- the barrier, as in sync.c; Fault = "early": the last one to arrive does not wait for the others' bookkeeping
B(f) == b' = f
Reach(t) == /\ Kind = "barrier" /\ Live(t) /\ UNCHANGED <<lk, val>> /\ K
  /\ CASE st[t] = "call" -> b.target > 0 /\ pc[t] = bar.rnd /\ bar.beg < bar.tgt /\ Vis(ReachCall(t)) /\ To(t, "m1") /\ UNCHANGED b
       [] st[t] = "m1" -> b.mutex = -1 /\ B([b EXCEPT !.mutex = t]) /\ To(t, "inc") /\ Quiet
       [] st[t] = "inc" -> /\ Quiet
            /\ IF b.current + 1 = b.target THEN B([b EXCEPT !.current = @ + 1, !.n[t] = b.current + 1, !.next[t] = "un"]) /\ To(t, "rel")
               ELSE IF Op(t) = "reach" THEN B([b EXCEPT !.current = @ + 1, !.n[t] = b.current + 1]) /\ To(t, "un")
               ELSE B([b EXCEPT !.current = @ + 1, !.waiting = @ + 1]) /\ To(t, "un2")
       [] st[t] = "rel" -> /\ Quiet /\ To(t, "un")
            /\ IF b.waiting > 0 THEN B([b EXCEPT !.release = @ + 1]) ELSE B([b EXCEPT !.target = 0, !.start = -1])
       [] st[t] = "un" -> B([b EXCEPT !.mutex = -1]) /\ Quiet /\ To(t, "ret")
       [] st[t] = "un2" -> B([b EXCEPT !.mutex = -1]) /\ Quiet /\ To(t, IF Fault = "early" THEN "ret" ELSE "sw")
       [] st[t] = "sw" -> b.release > 0 /\ B([b EXCEPT !.release = @ - 1]) /\ Quiet /\ To(t, "m2")
       [] st[t] = "m2" -> b.mutex = -1 /\ B([b EXCEPT !.mutex = t]) /\ Quiet /\ To(t, "dec")
       [] st[t] = "dec" -> B([b EXCEPT !.waiting = @ - 1]) /\ Quiet /\ To(t, "rel")
       [] st[t] = "ret" -> (IF Op(t) = "reach" THEN Vis(ReachDone(t, b.n[t])) ELSE Vis(PassDone(t))) /\ NextOp(t) /\ UNCHANGED b
Target == /\ Kind = "barrier" /\ pc[0] <= Len3 /\ UNCHANGED <<lk, val>> /\ K
  /\ CASE st[0] = "call" -> Vis(TargetCall(0, N)) /\ To(0, "ms") /\ UNCHANGED b
       [] st[0] = "ms" -> b.start = -1 /\ B([b EXCEPT !.start = 0]) /\ Quiet /\ To(0, "m")
       [] st[0] = "m" -> b.mutex = -1 /\ B([b EXCEPT !.mutex = 0]) /\ Quiet /\ To(0, "set")
       [] st[0] = "set" -> B([b EXCEPT !.target = N, !.current = 0, !.waiting = 0, !.mutex = -1]) /\ Quiet /\ To(0, "ret")
       [] st[0] = "ret" -> Vis(TargetDone(0, N)) /\ NextOp(0) /\ UNCHANGED b
Next == Go \/ (go /\ (Target \/ \E t \in Me : Call(t) \/ Eff(t) \/ Half(t) \/ Ret(t) \/ Give(t) \/ Reach(t)))
Spec == Init /\ [][Next]_vars
NeverBad == ~bad
\* nobody can move although programs are unfinished: every unfinished thread is blocked for a reason the observer accepts
Moves == ENABLED Next
StuckOK == Moves \/ \A t \in Me : Live(t) => Blocked(t)
\* the barrier never gets stuck
BarrierFlows == Kind = "barrier" => (Moves \/ \A t \in Me : ~Live(t))
Emit == (~go /\ go') => PrintT(<<"VP-HIST", ToJson(<<prog>>)>>)
=============================================================================

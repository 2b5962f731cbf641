------------------------------- MODULE MCJobs -------------------------------
(* Histories of the main thread's calls, over the specification itself: the workers' starts and ends are left to   *)
(* the schedule, here they happen at every point where Jobs allows them.                                           *)
EXTENDS Jobs, TLC, Json
CONSTANTS MaxOps
VARIABLES hist, gated, rest
vars == <<jvars, hist, gated, rest>>
NT == 2
NM == 1
Init == /\ pend = [p \in Prio |-> <<>>] /\ fn = <<>> /\ run = {} /\ poss = {<<Zero, FALSE>>} /\ nt = NT /\ nm = NM /\ mode = "idle"
        /\ hist = <<>> /\ gated = {} /\ rest = FALSE
Log(o) == hist' = Append(hist, o)
P == {0, 2}
Enq(p, k) == /\ \E res \in BOOLEAN : Enqueue(p, Len(fn) + 1, k, res)
             /\ Log(<<"enq", p, k, k, 1>>) /\ gated' = (IF k = 1 THEN gated \cup {Len(fn) + 1} ELSE gated) /\ UNCHANGED rest
Proc == Process /\ Log(<<"process", 3>>) /\ UNCHANGED gated /\ rest' = FALSE
Ret == (\E r \in BOOLEAN : Processed(r)) /\ UNCHANGED <<hist, gated, rest>>
W == \/ \E id \in 1..Len(fn), w \in 1..NT : (Start(id, fn[id], w) \/ (id \notin gated /\ Finish(id, w))) /\ UNCHANGED <<hist, gated, rest>>
Rel == \E id \in gated : Log(<<"release", id>>) /\ gated' = gated \ {id} /\ rest' = FALSE /\ UNCHANGED jvars
Set == Settle /\ ~rest /\ (\A x \in run : x[2] \in gated) /\ Log(<<"settle">>) /\ rest' = TRUE /\ UNCHANGED gated
Ask == mode = "idle" /\ hist # <<>> /\ hist[Len(hist)][1] # "query" /\ Log(<<"query">>) /\ UNCHANGED <<jvars, gated, rest>>
Done == mode = "idle" /\ hist # <<>> /\ hist[Len(hist)][1] # "done" /\ Log(<<"done">>) /\ UNCHANGED <<jvars, gated, rest>>
Next == (\E p \in P, k \in {0, 1} : Enq(p, k)) \/ Proc \/ Ret \/ W \/ Rel \/ Set \/ Ask \/ Done
Spec == Init /\ [][Next]_vars
View == <<jvars, gated, rest, hist>>
Bound == Len(hist) <= MaxOps
Emit == (Len(hist) = MaxOps - 1 /\ Len(hist') = MaxOps) => PrintT(<<"VP-HIST", ToJson(<<hist'>>)>>)
=============================================================================

---------------------------- MODULE TraceDispatch ----------------------------
(* A saturated job system, one process call per round with every worker idle.  w: the queues waiting before it,    *)
(* s: the priorities of the jobs it started.  No waiting queue is passed over more than Patience times.              *)
EXTENDS Integers, Sequences, FiniteSets, TraceLib
VARIABLES age, workers
CONSTANT Patience
Prio == 0..4
Zero == [p \in Prio |-> 0]
TInit == l = 1 /\ age = Zero /\ workers = 0
Count(p) == Cardinality({i \in 1..Len(Ev.s) : Ev.s[i] = p})
Round == /\ Len(Ev.s) <= workers
         /\ \A i \in 1..Len(Ev.s) : Ev.w[Ev.s[i] + 1] = 1
         /\ age' = [p \in Prio |-> IF Ev.w[p + 1] = 0 \/ Count(p) > 0 THEN 0 ELSE age[p] + 1]
         /\ \A p \in Prio : age'[p] <= Patience
         /\ UNCHANGED workers
Step == \/ Ev.op = "seg" /\ age' = Zero /\ workers' = 0
        \/ Ev.op = "init" /\ age' = Zero /\ workers' = Ev.t
        \/ Ev.op = "round" /\ Round
        \/ Ev.op \in {"freeing", "freed"} /\ age' = Zero /\ UNCHANGED workers
TNext == More /\ IF ENABLED Step THEN Step /\ Advance ELSE Reject /\ UNCHANGED <<age, workers>>
TSpec == TInit /\ [][TNext]_<<l, age, workers>>
=============================================================================

------------------------------ MODULE Dispatch ------------------------------
(* Which queue an idle worker is served from.  Priority p is due in the rounds divisible by its chance (2 3 5 7 11); *)
(* of the waiting queues that are due the first is served.  An adversary keeps any other queues filled as it likes;  *)
(* the victim waits.  Rule "round": the counter advances once per idle worker.  Rule "look": it advances with every  *)
(* queue looked at, as the code once did - then a victim can starve (the parity of the counter sticks).              *)
EXTENDS Integers, FiniteSets
CONSTANTS Rule, Victims, Patience
VARIABLES c, victim, age
dvars == <<c, victim, age>>
Prio == 0..4
Chance(p) == <<2, 3, 5, 7, 11>>[p + 1]
Cyc == 2310
\* the queue served in a round with counter r when the queues Q wait (-1: none), and the counter afterwards
Due(r, Q) == {p \in Q : r % Chance(p) = 0}
Least(S) == IF S = {} THEN -1 ELSE CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Look(_, _, _)
Look(r, Q, p) == IF p = 5 THEN <<-1, r>> ELSE IF p \notin Q THEN Look(r, Q, p + 1) ELSE IF r % Chance(p) = 0 THEN <<p, r + 1>> ELSE Look(r + 1, Q, p + 1)
Serve(r, Q) == IF Rule = "round" THEN <<Least(Due(r, Q)), r + 1>> ELSE Look(r, Q, 0)
Init == c = 0 /\ victim \in Victims /\ age = 0
\* the adversary decides every round which other queues wait
Round == \E Q \in SUBSET (Prio \ {victim}) : LET s == Serve(c, Q \cup {victim}) IN
            c' = s[2] % Cyc /\ age' = (IF s[1] = victim THEN 0 ELSE age + 1) /\ UNCHANGED victim
\* the victim's queue is empty for a while
Away == age = 0 /\ c' = (c + 1) % Cyc /\ UNCHANGED <<victim, age>>
Next == age <= Patience /\ (Round \/ Away)
Spec == Init /\ [][Next]_dvars
\* nobody waits longer than Patience rounds
Served == age <= Patience
=============================================================================

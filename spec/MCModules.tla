----------------------------- MODULE MCModules -----------------------------
(* The selection the way the preprocessor makes it: one switch after the other, in the order of the header.                                                       *)
EXTENDS Modules, Sequences, Integers, TLC, Json
CONSTANTS Toggles
VARIABLES dist, m, d, pc, def
\* def: the modules defined so far; pc: the switches already looked at
vars == <<dist, m, d, pc, def>>
Order == <<"CORE", "HASHING", "REGEX", "DLL", "OPTS", "PROCESS", "MATH", "THREADING", "JOBS", "PARSER", "SOCKET">>
N == Len(Order)
Init == /\ dist \in {"full", "nano", "pico"} /\ m \in SUBSET Choice /\ d \in SUBSET Choice /\ Cardinality(m) + Cardinality(d) <= Toggles
        /\ pc = 0 /\ def = Base(dist)
Enable(x) == IF x \in m /\ x \notin def THEN def \cup {x} \cup (IF x = "JOBS" THEN {"THREADING"} ELSE {}) ELSE def
Disable(x) == IF x \in d /\ x \in def THEN def \ ({x} \cup (IF x = "THREADING" THEN {"JOBS"} ELSE {})) ELSE def
Next == /\ pc < 2 * N /\ pc' = pc + 1 /\ UNCHANGED <<dist, m, d>>
        /\ def' = IF pc < N THEN Enable(Order[pc + 1]) ELSE Disable(Order[pc + 1 - N])
Spec == Init /\ [][Next]_vars
Agree == pc = 2 * N => /\ def = Selected(dist, m, d)
                       /\ "ESSENTIALS" \in def /\ def \cap d = {}
                       /\ "JOBS" \in def => "THREADING" \in def
                       /\ (d = {} => m \subseteq def) /\ (m = {} => def \subseteq Base(dist))
                       /\ (Usable(Base(dist) \cup m) /\ d = {} => Usable(def))
Emit == (pc' = 2 * N /\ Usable(def')) => PrintT(<<"VP-HIST", ToJson([dist |-> dist, m |-> m, d |-> d])>>)
=============================================================================

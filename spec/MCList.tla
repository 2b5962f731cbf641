------------------------------- MODULE MCList -------------------------------
(* Link surgery as the code does it, checked against the chains. *)
EXTENDS List, TLC, Json
CONSTANTS MaxOps, N
VARIABLES hist, nx, pv
Nodes == 0..N-1
Init == ch = {} /\ hist = <<>> /\ nx = [i \in Nodes |-> -1] /\ pv = [i \in Nodes |-> -1]
Log(op) == hist' = Append(hist, op)
ImplAdd(a, b) == /\ nx' = [nx EXCEPT ![b] = nx[a], ![a] = b]
                 /\ pv' = [i \in Nodes |-> IF i = b THEN a ELSE IF i = nx[a] THEN b ELSE pv[i]]
ImplRemove(n) == /\ nx' = [i \in Nodes |-> IF i = pv[n] THEN nx[n] ELSE nx[i]]
                 /\ pv' = [i \in Nodes |-> IF i = nx[n] THEN pv[n] ELSE pv[i]]
Next == \/ \E n \in Nodes : LInit(n) /\ nx' = [nx EXCEPT ![n] = -1] /\ pv' = [pv EXCEPT ![n] = -1] /\ Log(<<"init", n>>)
        \/ \E x, y \in Nodes : LAdd(x, y) /\ ImplAdd(x, y) /\ Log(<<"add", x, y>>)
        \/ \E n \in Nodes : n \in Used /\ LRemove(n, Nxt(ch, n)) /\ ImplRemove(n) /\ Log(<<"remove", n>>)
Bound == Len(hist) <= MaxOps
Emit == Len(hist') = MaxOps => PrintT(<<"VP-HIST", ToJson(hist')>>)
Links == \A n \in Used : nx[n] = Nxt(ch, n) /\ pv[n] = Prv(ch, n)
=============================================================================

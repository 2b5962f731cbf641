------------------------------- MODULE MCOom -------------------------------
(* The operations of Oom.tla in steps: an operation begins with the requests it will make, each is granted or refused, it commits or gives back what it took.        *)
(* A request "own" is a further block of the result; "swap" is a block that replaces one the object has had (freed when the operation commits).                      *)
EXTENDS Oom, TLC, Json
CONSTANTS Depth, Kinds
VARIABLES w, cap, live, op, reqs, taken, pos, hist
vars == <<w, cap, live, op, reqs, taken, pos, hist>>
Idle == op = <<>>
RECURSIVE Branches(_), SumB(_)
Branches(t) == (IF IsBranch(t) THEN 1 ELSE 0) + SumB(t.c)
SumB(s) == IF s = <<>> THEN 0 ELSE Branches(Head(s)) + SumB(Tail(s))
Blocks(o) == CASE o.k \in {"arr", "str"} -> 1 [] o.k = "stm" -> 2 [] o.k = "tree" -> Branches(o.t) [] OTHER -> 0
RECURSIVE SumW(_)
SumW(i) == IF i = 0 THEN 0 ELSE Blocks(w[i]) + SumW(i - 1)
E0 == [op |-> "", i |-> 0, j |-> 0, x |-> 0, at |-> 0, n |-> -1, d |-> <<>>, ps |-> <<>>, p |-> <<>>, q |-> <<>>, kind |-> ""]
Grown(c, need) == IF need <= c THEN c ELSE Max2(2 * c + 8, need)
Swap(i, need) == IF need > cap[i + 1] THEN <<"swap">> ELSE <<>>
\* one object of each kind: 0 array, 1 string, 2 stream, 3 tree, 4 copies of the array, 5 joined strings
Len0(i) == Len(w[i + 1].v)
Kind(i) == w[i + 1].k
Start(e, rs, c) == /\ Idle /\ op' = <<e, c>> /\ reqs' = rs /\ taken' = <<>> /\ pos' = 0 /\ UNCHANGED <<w, cap, live, hist>>
Arrays == /\ "arr" \in Kinds
          /\ \/ Kind(0) = "none" /\ Start([E0 EXCEPT !.op = "arr.newcap", !.x = 1], <<"own">>, 1)
             \/ Kind(0) = "arr" /\ LET L == Len0(0) IN
                \/ Start([E0 EXCEPT !.op = "arr.append", !.x = L], Swap(0, L + 1), Grown(cap[1], L + 1))
                \/ L > 0 /\ Start([E0 EXCEPT !.op = "arr.appendat", !.x = 50, !.at = L - 1], Swap(0, L + 1), Grown(cap[1], L + 1))
                \/ Start([E0 EXCEPT !.op = "arr.appendv", !.d = <<60, 61>>], Swap(0, L + 2), Grown(cap[1], L + 2))
                \/ L > 0 /\ Start([E0 EXCEPT !.op = "arr.appendvat", !.d = <<70, 71>>, !.at = 0], Swap(0, L + 2), Grown(cap[1], L + 2))
                \/ \E m \in {1, 2} : Start([E0 EXCEPT !.op = "arr.cap", !.x = m], IF m # cap[1] THEN <<"swap">> ELSE <<>>, m)
                \/ Start([E0 EXCEPT !.op = "arr.resize", !.x = L + 1], Swap(0, L + 1), Grown(cap[1], L + 1))
                \/ Start([E0 EXCEPT !.op = "arr.reserve", !.x = 3], Swap(0, 3), Max2(3, cap[1]))
                \/ Kind(4) = "none" /\ Start([E0 EXCEPT !.op = "arr.copy", !.i = 4], <<"own">>, cap[1])
                \/ Start([E0 EXCEPT !.op = "free"], <<>>, 0)
Strings == /\ "str" \in Kinds
           /\ \/ Kind(1) = "none" /\ Start([E0 EXCEPT !.op = "str.new", !.i = 1, !.d = <<97>>], <<"own">>, 1)
              \/ Kind(1) = "none" /\ Start([E0 EXCEPT !.op = "str.reserve", !.i = 1, !.x = 2], <<"own">>, 2)
              \/ Kind(5) = "none" /\ Start([E0 EXCEPT !.op = "str.join", !.i = 5, !.ps = <<<<97>>, <<>>, <<98, 99>>>>, !.d = <<44>>], <<"own", "swap", "swap", "swap", "swap">>, 5)
              \/ Kind(1) = "str" /\ LET L == Len0(1) IN
                 \/ Start([E0 EXCEPT !.op = "str.append", !.i = 1, !.d = <<98>>], Swap(1, L + 1), Max2(cap[2], L + 1))
                 \/ Start([E0 EXCEPT !.op = "str.set", !.i = 1, !.d = <<120, 121, 122>>], Swap(1, 3), Max2(cap[2], 3))
                 \/ Start([E0 EXCEPT !.op = "str.space", !.i = 1, !.x = 2], Swap(1, L + 2), Max2(cap[2], L + 2))
                 \/ Kind(5) = "none" /\ Start([E0 EXCEPT !.op = "str.dup", !.i = 5, !.j = 1], <<"own">>, L)
                 \/ Start([E0 EXCEPT !.op = "free", !.i = 1], <<>>, 0)
Streams == /\ "stm" \in Kinds
           /\ \/ Kind(2) = "none" /\ Start([E0 EXCEPT !.op = "stm.new", !.i = 2], <<"own", "own">>, 8)
              \/ Kind(2) = "none" /\ Start([E0 EXCEPT !.op = "stm.open", !.i = 2, !.d = <<1, 2>>], <<"own", "own">>, 2)
              \/ Kind(2) = "stm" /\ LET L == Len0(2) IN
                 \/ Start([E0 EXCEPT !.op = "stm.write", !.i = 2, !.d = <<7, 8, 9>>], Swap(2, w[3].c + 3), Grown(cap[3], w[3].c + 3))
                 \/ \E a \in {0, L + 1, 20} : Start([E0 EXCEPT !.op = "stm.writeat", !.i = 2, !.at = a, !.d = <<5>>], Swap(2, a + 1), Grown(cap[3], a + 1))
                 \/ Start([E0 EXCEPT !.op = "free", !.i = 2], <<>>, 0)
Trees == /\ "tree" \in Kinds
         /\ \/ Kind(3) = "none" /\ Start([E0 EXCEPT !.op = "tree.new", !.i = 3, !.kind = "obj"], <<"own">>, 8)
            \/ Kind(3) = "tree" /\ LET R == w[4].t.c IN
               \/ \E k \in {"obj", "int"} : Start([E0 EXCEPT !.op = "tree.app", !.i = 3, !.kind = k, !.n = Len(R), !.x = IF k = "int" THEN 4 ELSE 0], Swap(3, Len(R) + 1) \o (IF k = "obj" THEN <<"own">> ELSE <<>>), Grown(cap[4], Len(R) + 1))
               \/ R # <<>> /\ R[1].t = "int" /\ Start([E0 EXCEPT !.op = "tree.set", !.i = 3, !.kind = "arr", !.n = 9, !.p = <<0>>], <<"own">>, cap[4])
               \/ Len(R) >= 2 /\ IsBranch(R[1]) /\ Start([E0 EXCEPT !.op = "tree.move", !.i = 3, !.p = <<1>>, !.q = <<0>>, !.at = 0], <<>>, cap[4])
               \/ Start([E0 EXCEPT !.op = "free", !.i = 3], <<>>, 0)
Grant == /\ op # <<>> /\ pos < Len(reqs) /\ live' = live + 1 /\ taken' = Append(taken, reqs[pos + 1]) /\ pos' = pos + 1
         \* within one operation a later block replaces the one before
         /\ UNCHANGED <<w, cap, op, reqs, hist>>
Owned(s) == Cardinality({i \in 1..Len(s) : s[i] = "own"})
Refuse == /\ op # <<>> /\ pos < Len(reqs) /\ live' = live - Len(taken)
          /\ hist' = Append(hist, <<op[1], pos>>) /\ op' = <<>> /\ reqs' = <<>> /\ taken' = <<>> /\ pos' = 0 /\ UNCHANGED <<w, cap>>
Commit == /\ op # <<>> /\ pos = Len(reqs)
          /\ LET e == op[1] i == e.i + 1 IN
             /\ w' = [w EXCEPT ![i] = Made(w, e)]
             /\ cap' = [cap EXCEPT ![i] = op[2]]
             /\ live' = live - (Len(taken) - Owned(taken)) - (IF e.op = "free" THEN Blocks(w[i]) ELSE 0)
             /\ hist' = Append(hist, <<e, -1>>)
          /\ op' = <<>> /\ reqs' = <<>> /\ taken' = <<>> /\ pos' = 0
Init == w = World0 /\ cap = [i \in 1..N |-> 0] /\ live = 0 /\ op = <<>> /\ reqs = <<>> /\ taken = <<>> /\ pos = 0 /\ hist = <<>>
Next == (Len(hist) < Depth /\ (Arrays \/ Strings \/ Streams \/ Trees)) \/ Grant \/ Refuse \/ Commit
Spec == Init /\ [][Next]_vars
\* nothing is kept that no object holds, and everything an object holds is there
Accounted == live = SumW(N) + (IF Idle THEN 0 ELSE Len(taken))
Fits == Idle => \A i \in 1..N : w[i].k \in {"arr", "stm", "str"} => Len(w[i].v) <= cap[i]
\* every way an operation ends is one that Oom.tla allows
Ends == [][(op # <<>> /\ op' = <<>>) => Outcome(w, live - Len(taken), op[1], hist'[Len(hist')][2] = -1, IF hist'[Len(hist')][2] = -1 THEN 0 ELSE 1, w', live')]_vars
View == <<w, cap, live, op, reqs, taken, pos, Len(hist)>>
Emit == Len(hist') = Depth /\ Len(hist) < Depth => PrintT(<<"VP-HIST", ToJson(hist')>>)
=============================================================================

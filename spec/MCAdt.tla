-------------------------------- MODULE MCAdt --------------------------------
(* Every edit history up to a depth on small trees: nodes carry distinct names, and no edit loses, shares or duplicates one. *)
EXTENDS Adt, Json
CONSTANTS MaxNodes, Depth
VARIABLES x, h, new
Nm(k) == <<97 + k>>
vars == <<x, h, new>>
Init == x = Branch(OBJ, None) /\ h = <<>> /\ new = 0
Conts == {p \in Places(x) : Container(Get(x, p))}
Room == Size(x) < MaxNodes
Do(y, e) == x' = TLCEval(y) /\ h' = Append(h, e)
Add == Room /\ \E p \in Conts : \E i \in 0..Len(Get(x, p).c) : \E k \in {OBJ, ARR, INTEGER} :
        /\ Do(Insert(x, p, i, IF k = INTEGER THEN Leaf(k, Nm(new), new, None) ELSE Branch(k, Nm(new))), <<"add", p, i, k>>) /\ new' = new + 1
Del == \E p \in Places(x) \ {<<>>} : Do(Remove(x, p), <<"rm", p>>) /\ UNCHANGED new
Mv == \E s \in Places(x) \ {<<>>} : \E d \in Conts : \E i \in 0..Len(Get(x, d).c) : ~Within(d, s) /\ Do(Move(x, s, d, i).x, <<"mv", s, d, i>>) /\ UNCHANGED new
Sw == \E p, q \in Places(x) \ {<<>>} : p # q /\ ~Within(p, q) /\ ~Within(q, p) /\ Do(Swap(x, p, q), <<"swap", p, q>>) /\ UNCHANGED new
Next == Len(h) < Depth /\ (Add \/ Del \/ Mv \/ Sw)
Spec == Init /\ [][Next]_vars
View == <<x, new, Len(h)>>
Emit == Len(h') = Depth => PrintT(<<"VP-HIST", ToJson(<<h'>>)>>)
Names(y) == {Get(y, p).n : p \in Places(y)}
WellFormed == /\ Cardinality(Names(x)) = Size(x) /\ Size(x) = Cardinality(Places(x))
              /\ \A p \in Places(x) : ~Container(Get(x, p)) => Get(x, p).c = <<>>
\* every node can be found where it is
Reach == \A p \in Places(x) \ {<<>>} : LET par == Get(x, Front(p)) IN
            Query(par, IF par.t = OBJ THEN Get(x, p).n ELSE Dec(Back(p))) = <<Back(p)>>
Last == h'[Len(h')]
Step == /\ Last[1] = "add" => Names(x') = Names(x) \union {Nm(new)} /\ Get(x', Last[2] \o <<Last[3]>>).n = Nm(new)
        /\ Last[1] \in {"mv", "swap"} => Names(x') = Names(x) /\ Size(x') = Size(x)
        /\ Last[1] = "rm" => Names(x') = Names(x) \ Names(Get(x, Last[2]))
        /\ Last[1] = "swap" => Get(x', Last[2]) = Get(x, Last[3]) /\ Get(x', Last[3]) = Get(x, Last[2])
        /\ Last[1] = "mv" => LET m == Move(x, Last[2], Last[3], Last[4]) IN Get(x', m.at) = Get(x, Last[2])
                             /\ Get(x', Front(m.at)).n = Get(x, Last[3]).n
Steps == [][h' # h => Step]_vars
=============================================================================

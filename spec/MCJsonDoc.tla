------------------------------- MODULE MCJsonDoc -------------------------------
(* Every small document in every layout: the printed text denotes the document. *)
EXTENDS JsonText, Json
CONSTANT Wide
VARIABLES d, lay, out
B(k, n) == Node(k, n)
Names == {<<97>>, <<36, 98, 95>>, <<34>>}               \* a  $b_  and a quote, which must be quoted and escaped
Leaves == {B("true", NoName), B("nnan", NoName), [B("int", NoName) EXCEPT !.s = <<55>>], [B("int", NoName) EXCEPT !.s = <<49, 48>>, !.neg = TRUE],
           [B("real", NoName) EXCEPT !.m = 500000000, !.e = -1], [B("str", NoName) EXCEPT !.s = <<39, 58, 10>>], [B("mstr", NoName) EXCEPT !.s = <<44, 125>>]}
Branches == {B("arr", NoName), B("obj", NoName), [B("arr", NoName) EXCEPT !.c = <<[B("int", NoName) EXCEPT !.s = <<55>>], B("arr", NoName)>>], [B("obj", NoName) EXCEPT !.c = <<B("null", <<97>>)>>]}
Vals == Leaves \union Branches
Named(S) == {[v EXCEPT !.n = n] : v \in S, n \in Names}
Docs == {[B("obj", NoName) EXCEPT !.c = <<v, w>>] : v \in Named(Vals), w \in (IF Wide THEN Named(Vals) ELSE {[u EXCEPT !.n = <<97>>] : u \in Vals})}
        \union {[B("arr", NoName) EXCEPT !.c = <<v, w>>] : v \in Vals, w \in Vals} \union {[B("obj", NoName) EXCEPT !.c = <<v>>] : v \in Named(Vals)} \union Branches
Lays == [q : {34, 39, 0}, as : {58, 61, 124}, dl : {44, 10, 124}, ws : {<<>>, <<32>>, <<10>>, <<47, 42, 42, 42, 47>>, <<47, 47, 120, 10>>}, bare : BOOLEAN]
Init == out = FALSE /\ d \in Docs /\ lay \in Lays /\ (lay.bare => d.k = "obj" /\ d.c # <<>>)
Next == ~out /\ out' = TRUE /\ UNCHANGED <<d, lay>>
Spec == Init /\ [][Next]_<<d, lay, out>>
Quoted(n) == n = <<34>> \/ lay.q # 0
Q == IF lay.q = 39 THEN 39 ELSE 34
NameText(n) == IF Quoted(n) THEN (IF n = <<34>> /\ Q = 34 THEN <<34, 92, 34, 34>> ELSE <<Q>> \o n \o <<Q>>) ELSE n
Word(k) == LET i == CHOOSE j \in 1..Len(Words) : Words[j][1] = k IN Words[i][2]
RECURSIVE Text(_), ListText(_, _, _)
Text(v) == CASE v.k = "obj" -> <<123>> \o lay.ws \o ListText(v.c, TRUE, 1) \o <<125>>
             [] v.k = "arr" -> <<91>> \o lay.ws \o ListText(v.c, FALSE, 1) \o <<93>>
             [] v.k = "str" -> <<34>> \o v.s \o <<34>>
             [] v.k = "mstr" -> <<96>> \o v.s \o <<96>>
             [] v.k = "int" -> (IF v.neg THEN <<45>> ELSE <<>>) \o v.s
             [] v.k = "real" -> <<46, 53, 48>>
             [] OTHER -> Word(v.k)
ListText(c, named, k) == IF k > Len(c) THEN <<>>
    ELSE (IF named THEN NameText(c[k].n) \o lay.ws \o <<lay.as>> \o lay.ws ELSE <<>>) \o Text(c[k]) \o lay.ws
         \o (IF k < Len(c) THEN <<IF named THEN lay.dl ELSE 44>> \o lay.ws ELSE <<>>) \o ListText(c, named, k + 1)
Whole == IF lay.bare THEN lay.ws \o ListText(d.c, TRUE, 1) ELSE lay.ws \o Text(d) \o lay.ws
\* names come back as written, the quote with its escape
RECURSIVE AsWritten(_)
AsWritten(v) == [v EXCEPT !.n = IF v.n = <<34>> /\ Q = 34 THEN <<92, 34>> ELSE v.n, !.c = [i \in 1..Len(v.c) |-> AsWritten(v.c[i])]]
Ok == ~out => LET p == Parse(Whole) IN p.ok /\ ~p.lx /\ p.x = AsWritten(d) /\ Kept(d, p.x, FALSE)
Emit == PrintT(<<"VP-HIST", ToJson(<<Whole>>)>>)
=============================================================================

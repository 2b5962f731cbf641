------------------------------ MODULE MCRegex ------------------------------
(* Every pattern up to a length over the operator characters, each with every short text: the preferred match exists exactly when the
   language says so, ends where the language allows, and its captures lie inside it. *)
EXTENDS Regex, Json
CONSTANTS Chars, MaxPat, MaxText
VARIABLES p
Init == p = <<>>
Next == Len(p) < MaxPat /\ \E c \in Chars : p' = Append(p, c)
Spec == Init /\ [][Next]_p
Texts == UNION {[1..n -> {97, 98}] : n \in 0..MaxText}
\* longest first, so that a prefix-closed walk emits each pattern once
Emit == Len(p') = MaxPat => PrintT(<<"VP-HIST", ToJson(<<p'>>)>>)
OkText(ast, t) ==
    LET m == Match(ast, t) IN
    /\ \A i \in 0..Len(t) : {All(ast, t, i)[k].e : k \in 1..Len(All(ast, t, i))} = UNION {Ends(ast.a[k], 1, t, i) : k \in 1..Len(ast.a)}
    /\ m.ok => /\ m.s <= m.e /\ \A i \in 0..m.s - 1 : All(ast, t, i) = <<>>
               /\ \A k \in 1..Len(m.c) : m.c[k] = None \/ (m.c[k][1] >= m.s /\ m.c[k][1] + m.c[k][2] <= m.e /\ m.c[k][2] >= 0)
Ok == LET r == Parse(p) IN r.ok => \A t \in Texts : OkText(r, t)
=============================================================================

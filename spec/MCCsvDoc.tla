------------------------------- MODULE MCCsvDoc -------------------------------
(* Every small table in every layout: the printed text denotes the table. *)
EXTENDS CsvText, Json
CONSTANT Wide
VARIABLES tab, lay, out
Cells == {<<>>, <<97>>, <<34>>, <<32, 97>>, <<44, 59>>, <<10>>, <<97, 34, 98>>, <<34, 34>>, <<13>>, <<49, 50>>, <<49, 45, 49>>, <<46, 53>>}
Few == {<<>>, <<97>>, <<34>>, <<49, 50>>}
Tabs == {<<<<a>>>> : a \in Cells} \union {<<<<a>>, <<b>>>> : a \in Cells, b \in Cells} \union {<<<<a, b>>>> : a \in Cells, b \in Cells}
        \union {<<<<a, b>>, <<c, e>>>> : a \in Few, b \in (IF Wide THEN Cells ELSE Few), c \in (IF Wide THEN Cells ELSE Few), e \in (IF Wide THEN Cells ELSE Few)}
Lays == [d : {44, 59, 9}, nl : {<<10>>, <<13, 10>>, <<10, 10>>}, sp : {<<>>, <<32>>}, last : BOOLEAN, quote : BOOLEAN, head : BOOLEAN]
Init == out = FALSE /\ tab \in Tabs /\ lay \in Lays
Next == ~out /\ out' = TRUE /\ UNCHANGED <<tab, lay>>
Spec == Init /\ [][Next]_<<tab, lay, out>>
RECURSIVE Double(_)
Double(s) == IF s = <<>> THEN <<>> ELSE (IF s[1] = 34 THEN <<34, 34>> ELSE <<s[1]>>) \o Double(Tail(s))
Plain(s) == s # <<>> /\ s[1] \notin {34, 32, 13} /\ \A k \in 1..Len(s) : s[k] \notin {lay.d, 10, 13}
Shown(s, w) == lay.sp \o (IF (lay.quote \/ ~Plain(s)) /\ ~(s = <<>> /\ w > 1 /\ ~lay.quote) THEN <<34>> \o Double(s) \o <<34>> ELSE s) \o lay.sp
RECURSIVE RowText(_, _), Text(_)
RowText(r, k) == IF k > Len(r) THEN <<>> ELSE Shown(r[k], Len(r)) \o (IF k < Len(r) THEN <<lay.d>> ELSE <<>>) \o RowText(r, k + 1)
Text(k) == IF k > Len(tab) THEN <<>> ELSE RowText(tab[k], 1) \o (IF k < Len(tab) \/ lay.last THEN lay.nl ELSE <<>>) \o Text(k + 1)
Whole == Text(1)
Means(s, c, head) == LET x == c.x IN IF head \/ lay.quote \/ s \notin {<<49, 50>>, <<46, 53>>} THEN x.k = "str" /\ x.s = s ELSE IF s = <<49, 50>> THEN x.k = "int" /\ x.s = s ELSE x.k = "real" /\ x.m = 500000000 /\ x.e = -1
Ok == ~out => LET p == ParseCsv(Whole, lay.d, lay.head) IN
      p.ok /\ Len(p.rows) = Len(tab) /\ \A i \in 1..Len(tab) : Len(p.rows[i]) = Len(tab[i]) /\ \A j \in 1..Len(tab[i]) : Means(tab[i][j], p.rows[i][j], lay.head /\ i = 1)
Emit == PrintT(<<"VP-HIST", ToJson(<<lay.d, IF lay.head THEN 1 ELSE 0, Whole>>)>>)
=============================================================================

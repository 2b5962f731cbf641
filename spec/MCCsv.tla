-------------------------------- MODULE MCCsv --------------------------------
(* Every sequence of tokens up to a length: white space around what ends a field means nothing, a line end after the last row means nothing, and what a
   text denotes with a header is what it denotes without one, the first row set apart. *)
EXTENDS CsvText, Json
CONSTANT MaxToks
VARIABLES toks
D == 44
Tok == {<<97>>, <<49>>, <<44>>, <<34>>, <<34, 34>>, <<10>>, <<32>>, <<13, 10>>, <<34, 98, 34>>}
Init == toks = <<>>
Next == Len(toks) < MaxToks /\ \E t \in Tok : toks' = Append(toks, t)
Spec == Init /\ [][Next]_toks
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Join(Tail(s))
Emit == Len(toks') = MaxToks => PrintT(<<"VP-HIST", ToJson(<<Join(toks')>>)>>)
Quotes(t) == Cardinality({k \in 1..Len(t) : t[k] = 34})
Ok == LET t == Join(toks) p == ParseCsv(t, D, FALSE) h == ParseCsv(t, D, TRUE) IN
      /\ p.ok = h.ok /\ (p.ok => Len(p.rows) = Len(h.rows) /\ Tail(p.rows) = Tail(h.rows) /\ Len(p.rows[1]) = Len(h.rows[1]) /\ \A i \in 1..Len(h.rows[1]) : h.rows[1][i].x.k = "str")
      /\ p.ok => ParseCsv(Append(t, Nl), D, FALSE) = p
      /\ ParseCsv(<<Nl, 32>> \o t, D, FALSE) = p
      /\ (p.ok => p.rows # <<>> /\ \A i \in 1..Len(p.rows) : p.rows[i] # <<>> /\ Len(p.rows[i]) = Len(p.rows[1]))
      /\ Quotes(t) = 0 => (p.ok \/ p.err # "junk") /\ (~p.ok /\ p.err = "end" => \A k \in 1..Len(t) : t[k] \in Blanks)
=============================================================================

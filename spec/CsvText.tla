--------------------------------- MODULE CsvText ---------------------------------
(* CSV: the table a text denotes, for a delimiter d and with or without a header. Fields are separated by d, rows by line ends; blank lines between rows
   and white space around fields mean nothing. A field in quotes keeps its text (a doubled quote is one quote); a bare field that is a number as a
   whole is that number, unless it belongs to the header.
   Parse gives [ok, err, rows]: err is "end" (no row at all, or a quote that is never closed), "ragged" or "junk" (text behind a closing quote); a
   cell is [lx, x], where lx marks numbers whose value the dialect leaves open. *)
EXTENDS JsonText
Nl == 10
Cell(x) == [lx |-> FALSE, x |-> x]
Str(s) == [Node("str", NoName) EXCEPT !.s = s]
Fail(e) == [ok |-> FALSE, err |-> e]
First(t, p, S) == LET u == TLCEval(t) Z == TLCEval(S) IN IF \E k \in p..Len(u) : u[k] \in Z THEN CHOOSE k \in p..Len(u) : u[k] \in Z /\ \A j \in p..k - 1 : u[j] \notin Z ELSE Len(u) + 1
FirstNot(t, p, S) == LET u == TLCEval(t) Z == TLCEval(S) IN IF \E k \in p..Len(u) : u[k] \notin Z THEN CHOOSE k \in p..Len(u) : u[k] \notin Z /\ \A j \in p..k - 1 : u[j] \in Z ELSE Len(u) + 1
Blanks == {32, 9, 10, 11, 12, 13}
RECURSIVE LastNot(_, _, _, _)
LastNot(t, p, q, S) == IF q < p \/ t[q] \notin S THEN q ELSE LastNot(t, p, q - 1, S)
RECURSIVE QuoteEnd(_, _)       \* the quote that closes what begins at p; 0: none
QuoteEnd(t, p) == LET q == First(t, p, {34}) IN IF q > Len(t) THEN 0 ELSE IF At(t, q + 1) = 34 THEN QuoteEnd(t, q + 2) ELSE q
RECURSIVE Undouble(_)
Undouble(s) == LET q == First(s, 1, {34}) IN IF q > Len(s) THEN s ELSE SubSeq(s, 1, q) \o Undouble(SubSeq(s, q + 2, Len(s)))
Bare(s, head) == IF head THEN Cell(Str(s))
                 ELSE LET n == IF \A k \in 1..Len(s) : IsHex(s[k]) \/ s[k] \in {43, 45, 46, 120, 88} THEN NumberAt(s, 1, NoName) ELSE Bad IN
                      IF ~n.ok THEN Cell(Str(s)) ELSE IF n.p # Len(s) + 1 THEN Cell(Str(s))
                      ELSE IF (n.x.k = "int" \/ n.lx) /\ Len(s) > 18 THEN Cell(Str(s))          \* more digits than an integer surely holds
                      ELSE [lx |-> n.lx, x |-> n.x]
\* one field from p on: [ok, c, p] with p at what ends it (d, a line end, or behind the text)
Field(t, p, d, head) == LET q == FirstNot(t, p, Blanks \ {Nl, d}) IN
    IF At(t, q) = 34
    THEN (LET c == QuoteEnd(t, q + 1) r == FirstNot(t, c + 1, Blanks \ {Nl, d}) IN
          IF c = 0 THEN Fail("end") ELSE IF At(t, r) \notin {0, Nl, d} THEN Fail("junk") ELSE [ok |-> TRUE, p |-> r, c |-> Cell(Str(TLCEval(Undouble(TLCEval(SubSeq(t, q + 1, c - 1))))))])
    ELSE LET e == First(t, q, {Nl, d}) IN [ok |-> TRUE, p |-> e, c |-> IF e = q THEN Cell(Str(<<>>)) ELSE LET s == TLCEval(SubSeq(t, q, LastNot(t, q, e - 1, Blanks))) IN Bare(s, head)]
RECURSIVE Row(_, _, _, _, _)
Row(t, p, d, head, acc) == LET f == TLCEval(Field(t, p, d, head)) IN
    IF ~f.ok THEN f ELSE LET a == TLCEval(Append(acc, f.c)) IN IF At(t, f.p) = d THEN Row(t, f.p + 1, d, head, a) ELSE [ok |-> TRUE, p |-> f.p + 1, r |-> a]
RECURSIVE Rows(_, _, _, _, _)
Rows(t, p, d, head, acc) == LET q == FirstNot(t, p, Blanks \ {d}) IN
    IF q > Len(t) THEN (IF acc = <<>> THEN Fail("end") ELSE [ok |-> TRUE, rows |-> acc])
    ELSE LET r == TLCEval(Row(t, q, d, head /\ acc = <<>>, <<>>)) IN
         IF ~r.ok THEN r ELSE IF acc # <<>> /\ Len(r.r) # Len(acc[1]) THEN Fail("ragged") ELSE Rows(t, r.p, d, head, TLCEval(Append(acc, r.r)))
ParseCsv(t, d, head) == LET u == TLCEval(t) IN Rows(u, 1, d, head, <<>>)
------------------------------------------------------------------------------
(* x: a table as recorded from the code (columns of cells; names when there is a header) *)
IsTable(x, head) == /\ x.k = (IF head THEN "obj" ELSE "arr") /\ Len(x.c) > 0
                    /\ \A i \in 1..Len(x.c) : x.c[i].k = "arr" /\ (x.c[i].n # NoName <=> head) /\ Len(x.c[i].c) = Len(x.c[1].c)
SameCell(y, c) == IF c.k = "str" THEN c.s = y.x.s /\ y.x.k = "str" ELSE y.x.k # "str" /\ (y.lx \/ Same(y.x, [c EXCEPT !.n = NoName]))
SameTable(r, x, head) == LET h == IF head THEN 1 ELSE 0 IN
    /\ IsTable(x, head) /\ Len(x.c) = Len(r.rows[1]) /\ Len(x.c[1].c) = Len(r.rows) - h
    /\ head => \A i \in 1..Len(x.c) : x.c[i].n = r.rows[1][i].x.s
    /\ \A i \in 1..Len(x.c), j \in 1..Len(r.rows) - h : SameCell(r.rows[j + h][i], x.c[i].c[j])
\* what a table was written as: texts to the letter, numbers as the writer keeps them
KeptCell(c, y) == IF c.k = "bad" \/ (c.k = "real" /\ c.e > 17) THEN TRUE          \* beyond what is printed: open
                  ELSE IF c.k = "str" THEN y.x.k = "str" /\ y.x.s = c.s
                  ELSE IF c.k = "real" THEN y.x.k # "str" /\ NearSix(c, y.x) ELSE y.x.k = "int" /\ (IF y.x.h # <<>> THEN y.x.h = c.h ELSE y.x.s = c.s /\ y.x.neg = c.neg)
KeptTable(x, r, head) == LET h == IF head THEN 1 ELSE 0 IN
    /\ Len(r.rows) = Len(x.c[1].c) + h /\ Len(r.rows[1]) = Len(x.c)
    /\ head => \A i \in 1..Len(x.c) : x.c[i].n = r.rows[1][i].x.s
    /\ \A i \in 1..Len(x.c), j \in 1..Len(x.c[1].c) : KeptCell(x.c[i].c[j], r.rows[j + h][i])
=============================================================================

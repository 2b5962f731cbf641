-------------------------------- MODULE Regex --------------------------------
(* Regular expressions: the pattern text is parsed to a tree and matching is defined on the tree, as the list of all ways to match in
   order of preference (first alternative first, greedy repetitions longest first, lazy ones shortest first). *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
Byte == 0..255
Rng(a, b) == a..b
White == {32, 13, 9, 10, 11, 12}
Digit == Rng(48, 57)
Lower == Rng(97, 122)
Upper == Rng(65, 90)
Alpha == Lower \union Upper
Word == Alpha \union Digit \union {95}
Hex == Digit \union Rng(65, 70) \union Rng(97, 102)
HexVal(c) == IF c \in Digit THEN c - 48 ELSE IF c \in Lower THEN c - 87 ELSE c - 55
\* the characters an escape letter stands for
Escape(c) == CASE c = 116 -> {9} [] c = 110 -> {10} [] c = 114 -> {13} [] c = 102 -> {12} [] c = 118 -> {11} [] c = 48 -> {0}
               [] c = 115 -> White [] c = 83 -> Byte \ White [] c = 100 -> Digit [] c = 68 -> Byte \ Digit [] c = 97 -> Alpha [] c = 108 -> Lower [] c = 117 -> Upper
               [] c = 119 -> Word [] c = 87 -> Byte \ Word [] c = 120 -> Hex [] c = 112 -> Rng(32, 126) [] OTHER -> {c}
\* p[k] is the character after a backslash: the set and the next position
EscAt(p, k) == IF k + 1 <= Len(p) /\ p[k] \in Hex /\ p[k + 1] \in Hex THEN [s |-> {HexVal(p[k]) * 16 + HexVal(p[k + 1])}, n |-> k + 2]
               ELSE [s |-> Escape(p[k]), n |-> k + 1]
Bad == [ok |-> FALSE]
\* a set body from p[k]; not closed -> Bad
RECURSIVE SetAt(_, _, _)
SetAt(p, k, acc) == IF k > Len(p) THEN Bad
                    ELSE IF p[k] = 93 THEN [ok |-> TRUE, s |-> acc, n |-> k + 1]
                    ELSE IF p[k] = 92 THEN (IF k + 1 > Len(p) THEN Bad ELSE LET e == EscAt(p, k + 1) IN SetAt(p, e.n, acc \union e.s))
                    ELSE SetAt(p, k + 1, acc \union {p[k]})
\* the quantifier at p[k]: its name and the next position
QuantAt(p, k) == IF k > Len(p) \/ p[k] \notin {42, 43, 63} THEN [q |-> "1", n |-> k]
                 ELSE IF p[k] = 63 THEN [q |-> "?", n |-> k + 1]
                 ELSE LET lazy == k + 1 <= Len(p) /\ p[k + 1] = 63
                      IN [q |-> IF p[k] = 42 THEN (IF lazy THEN "*?" ELSE "*") ELSE (IF lazy THEN "+?" ELSE "+"), n |-> IF lazy THEN k + 2 ELSE k + 1]
\* alternatives from p[k] at nesting level lv: done = finished alternatives, cur = the one being read, g = groups opened so far
RECURSIVE Alt(_, _, _, _, _, _)
One(p, k, lv, done, cur, g, s) == LET q == QuantAt(p, k) IN Alt(p, q.n, lv, done, Append(cur, [k |-> "chr", s |-> s, q |-> q.q]), g)
Alt(p, k, lv, done, cur, g) ==
    IF k > Len(p) THEN (IF lv > 0 THEN Bad ELSE [ok |-> TRUE, a |-> Append(done, cur), n |-> k, g |-> g])
    ELSE LET c == p[k] IN
    CASE c = 94 -> Alt(p, k + 1, lv, done, Append(cur, [k |-> "bol"]), g)
      [] c = 36 -> Alt(p, k + 1, lv, done, Append(cur, [k |-> "eol"]), g)
      [] c = 40 -> (LET r == Alt(p, k + 1, lv + 1, <<>>, <<>>, g + 1)
                    IN IF ~r.ok THEN Bad ELSE Alt(p, r.n, lv, done, Append(cur, [k |-> "grp", i |-> g, a |-> r.a]), r.g))
      [] c = 41 -> IF lv = 0 THEN Bad ELSE [ok |-> TRUE, a |-> Append(done, cur), n |-> k + 1, g |-> g]
      [] c = 124 -> IF cur = <<>> THEN Bad ELSE Alt(p, k + 1, lv, Append(done, cur), <<>>, g)
      [] c = 91 -> (LET neg == k + 1 <= Len(p) /\ p[k + 1] = 94
                        r == SetAt(p, IF neg THEN k + 2 ELSE k + 1, {})
                    IN IF ~r.ok THEN Bad ELSE One(p, r.n, lv, done, cur, g, TLCEval(IF neg THEN Byte \ r.s ELSE r.s)))
      [] c = 46 -> One(p, k + 1, lv, done, cur, g, Byte)
      [] c \in {93, 42, 43, 63} -> Bad
      [] c = 92 -> IF k + 1 > Len(p) THEN Bad ELSE (LET e == EscAt(p, k + 1) IN One(p, e.n, lv, done, cur, g, TLCEval(e.s)))
      [] OTHER -> One(p, k + 1, lv, done, cur, g, {c})
Parse(p) == Alt(p, 1, 0, <<>>, <<>>, 0)
------------------------------------------------------------------------------
(* all matches of a tree from position i of text t, best first: sequences of [e |-> end, c |-> captures] *)
None == <<-1, 0>>
RECURSIVE RunLen(_, _, _)
RunLen(t, i, s) == IF i < Len(t) /\ t[i + 1] \in s THEN 1 + RunLen(t, i + 1, s) ELSE 0
Down(hi, lo) == [k \in 1..(IF hi < lo THEN 0 ELSE hi - lo + 1) |-> hi + 1 - k]
Up(lo, hi) == [k \in 1..(IF hi < lo THEN 0 ELSE hi - lo + 1) |-> lo + k - 1]
Counts(q, r) == CASE q = "1" -> IF r >= 1 THEN <<1>> ELSE <<>> [] q = "?" -> IF r >= 1 THEN <<1, 0>> ELSE <<0>>
                  [] q = "*" -> Down(r, 0) [] q = "+" -> Down(r, 1) [] q = "*?" -> Up(0, r) [] q = "+?" -> Up(1, r)
Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
RECURSIVE Cat(_, _, _, _, _), Node(_, _, _, _)
Node(n, t, i, c) ==
    CASE n.k = "bol" -> IF i = 0 THEN <<[e |-> i, c |-> c]>> ELSE <<>>
      [] n.k = "eol" -> IF i = Len(t) THEN <<[e |-> i, c |-> c]>> ELSE <<>>
      [] n.k = "chr" -> (LET m == TLCEval(Counts(n.q, RunLen(t, i, n.s))) IN [k \in 1..Len(m) |-> [e |-> i + m[k], c |-> c]])
      [] n.k = "grp" -> (LET r == Flat([k \in 1..Len(n.a) |-> Cat(n.a[k], 1, t, i, c)])
                         IN [k \in 1..Len(r) |-> [e |-> r[k].e, c |-> [r[k].c EXCEPT ![n.i + 1] = <<i, r[k].e - i>>]]])
Cat(ns, k, t, i, c) == IF k > Len(ns) THEN <<[e |-> i, c |-> c]>>
                       ELSE LET r == TLCEval(Node(ns[k], t, i, c)) IN Flat([j \in 1..Len(r) |-> Cat(ns, k + 1, t, r[j].e, r[j].c)])
All(ast, t, i) == Flat([k \in 1..Len(ast.a) |-> Cat(ast.a[k], 1, t, i, [j \in 1..ast.g |-> None])])
\* leftmost match, preferred among those that start there
RECURSIVE From(_, _, _)
From(ast, t, i) == IF i > Len(t) THEN [ok |-> FALSE]
                   ELSE LET r == TLCEval(All(ast, t, i)) IN IF r # <<>> THEN [ok |-> TRUE, s |-> i, e |-> r[1].e, c |-> r[1].c] ELSE From(ast, t, i + 1)
Match(ast, t) == From(ast, t, 0)
\* successive matches on what is left, stepping over an empty one
RECURSIVE Every(_, _, _)
Every(ast, t, base) == IF t = <<>> THEN [ok |-> TRUE, l |-> <<>>]
                       ELSE LET m == Match(ast, t) IN IF ~m.ok THEN [ok |-> FALSE, l |-> <<>>]
                       ELSE LET st == IF m.e > 0 THEN m.e ELSE 1 r == Every(ast, SubSeq(t, st + 1, Len(t)), base + st)
                            IN [ok |-> r.ok, l |-> <<[j \in 1..Len(m.c) |-> IF m.c[j] = None THEN None ELSE <<base + m.c[j][1], m.c[j][2]>>]>> \o r.l]
------------------------------------------------------------------------------
(* the language view: which ends are reachable, without any order *)
RECURSIVE Ends(_, _, _, _)
EndsOf(n, t, i) == CASE n.k = "bol" -> IF i = 0 THEN {i} ELSE {} [] n.k = "eol" -> IF i = Len(t) THEN {i} ELSE {}
                     [] n.k = "chr" -> {j \in i..Len(t) : (\A k \in i + 1..j : t[k] \in n.s) /\ (n.q = "1" => j = i + 1) /\ (n.q = "?" => j <= i + 1) /\ (n.q \in {"+", "+?"} => j > i)}
                     [] n.k = "grp" -> UNION {Ends(n.a[k], 1, t, i) : k \in 1..Len(n.a)}
Ends(ns, k, t, i) == IF k > Len(ns) THEN {i} ELSE UNION {Ends(ns, k + 1, t, j) : j \in EndsOf(ns[k], t, i)}
=============================================================================

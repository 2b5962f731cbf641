--------------------------------- MODULE JsonText ---------------------------------
(* The JSON dialect: the document a text denotes. A text is a sequence of bytes; a node is [k kind, n name, s text or digits, h hex digits,
   neg, m nine significant digits, e exponent, c children]. Parse gives [ok, x, lx]; lx marks texts the dialect leaves open (accepting them
   with this meaning and refusing them are both fine). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
IsSpace(c) == c \in {32, 9, 10, 11, 12, 13}
IsDigit(c) == c >= 48 /\ c <= 57
IsHex(c) == IsDigit(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
IsAlpha(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
IsAlnum(c) == IsDigit(c) \/ IsAlpha(c)
At(t, p) == IF p >= 1 /\ p <= Len(t) THEN t[p] ELSE 0
NoName == <<-1>>
Bad == [ok |-> FALSE]
Node(k, n) == [k |-> k, n |-> n, s |-> <<>>, h |-> <<>>, neg |-> FALSE, m |-> 0, e |-> 0, c |-> <<>>]
Low(s) == [i \in 1..Len(s) |-> IF s[i] >= 65 /\ s[i] <= 70 THEN s[i] + 32 ELSE s[i]]
------------------------------------------------------------------------------
\* the end of a line (or of the text); behind a block comment (0: never closed)
RECURSIVE LineEnd(_, _)
LineEnd(t, p) == IF p > Len(t) \/ t[p] = 10 THEN p ELSE LineEnd(t, p + 1)
RECURSIVE BlockEnd(_, _)
BlockEnd(t, p) == IF p > Len(t) THEN 0 ELSE IF t[p] = 42 /\ At(t, p + 1) = 47 THEN p + 2 ELSE BlockEnd(t, p + 1)
\* white space and comments from p; nl: a line end is not skipped
RECURSIVE Ws(_, _, _)
Ws(t, p, nl) == IF p > Len(t) THEN p
                ELSE IF t[p] = 47 /\ At(t, p + 1) = 47 THEN Ws(t, LineEnd(t, p), nl)
                ELSE IF t[p] = 47 /\ At(t, p + 1) = 42 THEN (LET q == BlockEnd(t, p + 2) IN IF q = 0 THEN p ELSE Ws(t, q, nl))
                ELSE IF IsSpace(t[p]) /\ ~(nl /\ t[p] = 10) THEN Ws(t, p + 1, nl) ELSE p
\* the quote c that closes what begins at p (0: none); a backslash guards the character after it
RECURSIVE Close(_, _, _)
Close(t, p, c) == IF ~\E k \in p..Len(t) : t[k] \in {c, 92} THEN 0
                  ELSE LET q == CHOOSE k \in p..Len(t) : t[k] \in {c, 92} /\ \A j \in p..k - 1 : t[j] \notin {c, 92} IN IF t[q] = c THEN q ELSE Close(t, q + 2, c)
RECURSIVE Run(_, _, _)
Run(F(_), t, p) == IF p <= Len(t) /\ F(t[p]) THEN Run(F, t, p + 1) ELSE p
\* escapes a name may contain: ok, bad or open
RECURSIVE Escapes(_, _)
Escapes(s, p) == IF ~\E k \in p..Len(s) : s[k] = 92 THEN "ok"
                 ELSE IF s[p] # 92 THEN Escapes(s, CHOOSE k \in p..Len(s) : s[k] = 92 /\ \A j \in p..k - 1 : s[j] # 92)
                 ELSE IF At(s, p + 1) \in {34, 39, 92, 47, 98, 102, 110, 114, 116} THEN Escapes(s, p + 2)
                 ELSE IF At(s, p + 1) = 117 /\ p + 5 <= Len(s) /\ \A i \in 2..5 : IsHex(s[p + i]) THEN Escapes(s, p + 6)
                 ELSE "open"
NameRest(c) == IsAlnum(c) \/ c = 95
NameAt(t, p) == LET c == At(t, p) IN
    IF c \in {34, 39} THEN (LET q == Close(t, p + 1, c) IN IF q = 0 THEN Bad ELSE [ok |-> TRUE, p |-> q + 1, s |-> SubSeq(t, p + 1, q - 1), lx |-> Escapes(SubSeq(t, p + 1, q - 1), 1) = "open"])
    ELSE IF IsAlpha(c) \/ c \in {95, 36} THEN (LET q == Run(NameRest, t, p + 1) IN [ok |-> TRUE, p |-> q, s |-> SubSeq(t, p, q - 1), lx |-> FALSE])
    ELSE Bad
------------------------------------------------------------------------------
(* numbers *)
RECURSIVE Zeros(_, _)
Zeros(s, k) == IF k <= Len(s) /\ s[k] = 48 THEN Zeros(s, k + 1) ELSE k - 1     \* leading zeros of s from k on
Strip(s) == LET z == Zeros(s, 1) IN IF z = Len(s) THEN <<48>> ELSE SubSeq(s, z + 1, Len(s))
RECURSIVE Num(_, _, _)
Num(s, k, acc) == IF k > Len(s) THEN acc ELSE IF acc > 99999999 THEN acc ELSE Num(s, k + 1, acc * 10 + (s[k] - 48))
MaxI64 == <<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 55>>
MinI64 == [MaxI64 EXCEPT ![19] = 56]
RECURSIVE DigitsLE(_, _, _)
DigitsLE(a, b, k) == IF k > Len(a) THEN TRUE ELSE IF a[k] # b[k] THEN a[k] < b[k] ELSE DigitsLE(a, b, k + 1)
Fits(s, neg) == LET lim == IF neg THEN MinI64 ELSE MaxI64 IN Len(s) < 19 \/ (Len(s) = 19 /\ DigitsLE(s, lim, 1))
Pad(s, n) == s \o [i \in 1..n |-> 48]
\* digits w.f times ten to the x, as nine significant digits and an exponent
Real(w, f, x) == LET d == w \o f z == Zeros(d, 1) r == SubSeq(d, z + 1, Len(d)) IN
    IF r = <<>> THEN [m |-> 0, e |-> 0]
    ELSE LET h == Num(SubSeq(Pad(r, 9), 1, 9), 1, 0) up == At(r, 10) >= 53 v == IF up THEN h + 1 ELSE h e == Len(w) - z - 1 + x
         IN IF v = 1000000000 THEN [m |-> 100000000, e |-> e + 1] ELSE [m |-> v, e |-> e]
NumberAt(t, p, n) ==
    LET neg == At(t, p) = 45 a == IF At(t, p) \in {43, 45} THEN p + 1 ELSE p IN
    IF At(t, a) = 48 /\ At(t, a + 1) \in {120, 88} /\ IsHex(At(t, a + 2))
    THEN LET q == Run(IsHex, t, a + 2) s == Strip(Low(SubSeq(t, a + 2, q - 1))) IN [ok |-> TRUE, p |-> q, lx |-> neg \/ Len(s) > 16, x |-> [Node("int", n) EXCEPT !.h = s]]
    ELSE LET b == Run(IsDigit, t, a) dot == At(t, b) = 46 c == IF dot THEN Run(IsDigit, t, b + 1) ELSE b
             w == SubSeq(t, a, b - 1) f == IF dot THEN SubSeq(t, b + 1, c - 1) ELSE <<>>
             sg == At(t, c + 1) \in {43, 45} d0 == IF sg THEN c + 2 ELSE c + 1
             ex == At(t, c) \in {101, 69} /\ IsDigit(At(t, d0)) d == IF ex THEN Run(IsDigit, t, d0) ELSE c
             xm == IF ex THEN Num(SubSeq(t, d0, d - 1), 1, 0) ELSE 0 x == IF ex /\ At(t, c + 1) = 45 THEN -xm ELSE xm
             s == Strip(w) r == Real(w, f, x) zero == s = <<48>>
         IN IF Len(w) + Len(f) = 0 THEN Bad
            ELSE IF ~dot /\ (zero \/ (x >= 0 /\ Len(s) + x <= 19 /\ Fits(Pad(s, x), neg))) THEN [ok |-> TRUE, p |-> d, lx |-> FALSE, x |-> [Node("int", n) EXCEPT !.s = IF zero THEN s ELSE Pad(s, x), !.neg = neg /\ ~zero]]
            ELSE [ok |-> TRUE, p |-> d, lx |-> ~dot /\ ~ex, x |-> [Node("real", n) EXCEPT !.m = r.m, !.e = r.e, !.neg = neg /\ r.m # 0]]   \* an integer that does not fit: open
Words == << <<"true", <<116, 114, 117, 101>> >>, <<"false", <<102, 97, 108, 115, 101>> >>, <<"null", <<110, 117, 108, 108>> >>, <<"inf", <<73, 110, 102, 105, 110, 105, 116, 121>> >>,
            <<"ninf", <<45, 73, 110, 102, 105, 110, 105, 116, 121>> >>, <<"nan", <<78, 97, 78>> >>, <<"nnan", <<45, 78, 97, 78>> >> >>
WordAt(t, p) == {i \in 1..Len(Words) : p + Len(Words[i][2]) - 1 <= Len(t) /\ SubSeq(t, p, p + Len(Words[i][2]) - 1) = Words[i][2]}
------------------------------------------------------------------------------
RECURSIVE Value(_, _, _)
RECURSIVE Elems(_, _, _, _)
RECURSIVE Members(_, _, _, _, _)
Value(t, p, n) == LET c == At(t, p) IN
    IF c \in {34, 39, 96} THEN (LET q == Close(t, p + 1, c) IN IF q = 0 THEN Bad ELSE [ok |-> TRUE, p |-> q + 1, lx |-> FALSE, x |-> [Node(IF c = 96 THEN "mstr" ELSE "str", n) EXCEPT !.s = SubSeq(t, p + 1, q - 1)]])
    ELSE IF c = 123 THEN (LET r == Members(t, p + 1, <<>>, TRUE, FALSE) IN IF ~r.ok THEN Bad ELSE [ok |-> TRUE, p |-> r.p, lx |-> r.lx, x |-> [Node("obj", n) EXCEPT !.c = r.c]])
    ELSE IF c = 91 THEN (LET r == Elems(t, p + 1, <<>>, FALSE) IN IF ~r.ok THEN Bad ELSE [ok |-> TRUE, p |-> r.p, lx |-> r.lx, x |-> [Node("arr", n) EXCEPT !.c = r.c]])
    ELSE IF IsAlpha(c) \/ (c = 45 /\ ~IsDigit(At(t, p + 1)) /\ At(t, p + 1) # 46)
    THEN LET W == WordAt(t, p) IN IF W = {} THEN Bad ELSE LET i == CHOOSE j \in W : TRUE q == p + Len(Words[i][2]) IN IF NameRest(At(t, q)) THEN Bad ELSE [ok |-> TRUE, p |-> q, lx |-> FALSE, x |-> Node(Words[i][1], n)]
    ELSE IF IsDigit(c) \/ c \in {43, 45, 46}
    THEN LET r == NumberAt(t, p, n) IN IF ~r.ok THEN Bad ELSE IF IsAlnum(At(t, r.p)) \/ At(t, r.p) \in {95, 46, 43, 45} THEN Bad ELSE r
    ELSE Bad
Elems(t, p, acc, lx) == LET q == Ws(t, p, FALSE) IN
    IF At(t, q) = 93 THEN [ok |-> TRUE, p |-> q + 1, c |-> acc, lx |-> lx]
    ELSE LET v == TLCEval(Value(t, q, NoName)) IN
         IF ~v.ok THEN Bad
         ELSE LET r == Ws(t, v.p, FALSE) a == TLCEval(Append(acc, v.x)) IN
              IF At(t, r) = 44 THEN Elems(t, r + 1, a, lx \/ v.lx) ELSE IF At(t, r) = 93 THEN [ok |-> TRUE, p |-> r + 1, c |-> a, lx |-> lx \/ v.lx] ELSE Bad
Members(t, p, acc, braced, lx) == LET q == Ws(t, p, FALSE) IN
    IF q > Len(t) THEN (IF braced THEN Bad ELSE [ok |-> TRUE, p |-> q, c |-> acc, lx |-> lx \/ acc = <<>>])
    ELSE IF t[q] = 125 THEN (IF braced THEN [ok |-> TRUE, p |-> q + 1, c |-> acc, lx |-> lx] ELSE Bad)
    ELSE LET n == TLCEval(NameAt(t, q)) IN
         IF ~n.ok THEN Bad
         ELSE LET a == Ws(t, n.p, FALSE) IN
              IF At(t, a) \notin {58, 61, 124} THEN Bad
              ELSE LET v == TLCEval(Value(t, Ws(t, a + 1, FALSE), n.s)) IN
                   IF ~v.ok THEN Bad
                   ELSE LET r == Ws(t, v.p, TRUE) r2 == Ws(t, v.p, FALSE) x == TLCEval(Append(acc, v.x)) l2 == lx \/ n.lx \/ v.lx IN
                        IF At(t, r) \in {44, 124} THEN Members(t, r + 1, x, braced, l2)
                        ELSE IF At(t, r) = 10 THEN Members(t, IF At(t, r2) \in {44, 124} THEN r2 + 1 ELSE r2, x, braced, l2)
                        ELSE Members(t, r, x, braced, l2 \/ (At(t, r) # 125 /\ r <= Len(t)))     \* nothing between two members: open
Parse(t) == LET q == Ws(t, 1, FALSE) bare == At(t, q) \notin {123, 91} v == TLCEval(IF bare THEN Members(t, q, <<>>, FALSE, FALSE) ELSE Value(t, q, NoName)) IN
    IF ~v.ok THEN Bad
    ELSE IF Ws(t, v.p, FALSE) <= Len(t) THEN Bad
    ELSE [ok |-> TRUE, lx |-> v.lx, x |-> IF bare THEN [Node("obj", NoName) EXCEPT !.c = v.c] ELSE v.x]
------------------------------------------------------------------------------
(* documents that are the same *)
NearReal(a, b) == a.neg = b.neg /\ \/ a.e = b.e /\ a.m - b.m \in -2..2
                                   \/ a.e = b.e + 1 /\ a.m = 100000000 /\ b.m >= 999999998
                                   \/ b.e = a.e + 1 /\ b.m = 100000000 /\ a.m >= 999999998
Huge(y) == y.k = "real" /\ (y.e > 300 \/ y.e < -300)           \* outside what a double holds comfortably: open
RECURSIVE Same(_, _)
\* y: denoted by a text; d: recorded from the code
Same(y, d) == /\ d.k = y.k \/ (Huge(y) /\ d.k = "bad")
              /\ d.n = y.n
              /\ y.k \in {"str", "mstr"} => d.s = y.s
              /\ y.k = "int" => IF y.h # <<>> THEN d.h = y.h ELSE d.s = y.s /\ d.neg = y.neg
              /\ y.k = "real" => Huge(y) \/ NearReal(y, d)
              /\ Len(d.c) = Len(y.c) /\ \A k \in 1..Len(y.c) : Same(y.c[k], d.c[k])
\* what a text in quotes q stands for, whether it is the source between the quotes or a value still to be written: an escaped quote is the
\* quote, and a last backslash with nothing to guard is an escaped one
RECURSIVE Meaning(_, _, _)
Meaning(s, q, k) == IF k > Len(s) THEN <<>>
                    ELSE IF s[k] # 92 THEN <<s[k]>> \o Meaning(s, q, k + 1)
                    ELSE IF k = Len(s) THEN <<256 + 92>>
                    ELSE (IF s[k + 1] = q THEN <<q>> ELSE <<256 + s[k + 1]>>) \o Meaning(s, q, k + 2)
SameText(a, b, q) == a = b \/ Meaning(a, q, 1) = Meaning(b, q, 1)
SameName(a, b) == a = b \/ (a # NoName /\ b # NoName /\ (SameText(a, b, 34) \/ SameText(a, b, 39)))
Zero(y) == (y.k = "real" /\ y.m = 0) \/ (y.k = "int" /\ y.s = <<48>>)
\* d1: a recorded document, y: what its written text denotes; a real keeps six decimals, a real zero is written as the integer, and elements have no names
Small(y) == y.k = "real" /\ (y.m = 0 \/ y.e < -6)                 \* less than a millionth: may be written as nothing
DigitsAt(e) == IF e >= 2 THEN 2 ELSE IF e >= 1 THEN 12 ELSE IF e = 0 THEN 102 ELSE IF e = -1 THEN 1002 ELSE IF e = -2 THEN 10002 ELSE IF e = -3 THEN 100002 ELSE IF e = -4 THEN 1000002 ELSE IF e = -5 THEN 10000002 ELSE 100000002
NearSix(a, b) == \/ Zero(a) /\ Zero(b)
                 \/ Small(a) /\ (Zero(b) \/ Small(b) \/ (b.k = "real" /\ b.e = -6))
                 \/ a.k = "real" /\ b.k = "real" /\ (NearReal(a, b) \/ (a.neg = b.neg /\ a.e = b.e /\ LET d == a.m - b.m IN d <= DigitsAt(a.e) /\ -d <= DigitsAt(a.e)))
                 \/ a.k = "real" /\ a.e = -6 /\ (Small(b) \/ Zero(b))
RECURSIVE Kept(_, _, _)
Kept(d, y, named) == /\ named => SameName(d.n, y.n)
                     /\ IF d.k = "real" THEN NearSix(d, y)
                        ELSE IF d.k = "int" THEN y.k = "int" /\ (IF y.h # <<>> THEN y.h = d.h ELSE y.s = d.s /\ y.neg = d.neg)
                        ELSE d.k = y.k
                     /\ d.k \in {"str", "mstr"} => SameText(d.s, y.s, IF d.k = "str" THEN 34 ELSE 96)
                     /\ Len(d.c) = Len(y.c) /\ \A k \in 1..Len(y.c) : Kept(d.c[k], y.c[k], d.k = "obj")
=============================================================================

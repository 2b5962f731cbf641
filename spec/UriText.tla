--------------------------------- MODULE UriText ---------------------------------
(* URI queries: an origin (all before the first question mark, to the letter) and fields behind it, separated by ampersands or further question marks.
   A field is a key, or a key and a value joined by the first equals sign; %XX stands for a byte and a plus sign for a space, and a percent sign that is
   not followed by two hex digits for itself.  White space around the text means nothing; inside it the dialect leaves the meaning open (lx), and so it
   does for an escaped NUL, which a text cannot hold. *)
EXTENDS JsonText
First(t, p, S) == IF \E k \in p..Len(t) : t[k] \in S THEN CHOOSE k \in p..Len(t) : t[k] \in S /\ \A j \in p..k - 1 : t[j] \notin S ELSE Len(t) + 1
Blanks == {32, 9, 10, 11, 12, 13}
RECURSIVE Left(_, _), Right(_, _)
Left(t, p) == IF p <= Len(t) /\ t[p] \in Blanks THEN Left(t, p + 1) ELSE p
Right(t, q) == IF q >= 1 /\ t[q] \in Blanks THEN Right(t, q - 1) ELSE q
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
RECURSIVE Decode(_)
Decode(s) == LET q == First(s, 1, {37, 43}) IN
    IF q > Len(s) THEN s
    ELSE SubSeq(s, 1, q - 1) \o (IF s[q] = 43 THEN <<32>> \o Decode(SubSeq(s, q + 1, Len(s)))
                                 ELSE IF IsHex(At(s, q + 1)) /\ IsHex(At(s, q + 2)) THEN <<16 * HexVal(s[q + 1]) + HexVal(s[q + 2])>> \o Decode(SubSeq(s, q + 3, Len(s)))
                                 ELSE <<37>> \o Decode(SubSeq(s, q + 1, Len(s))))
NoText == <<-1>>
Has0(s) == \E k \in 1..Len(s) : s[k] = 0
\* a field in the text s: its key, and its value (NoText: a bare key)
FieldOf(s) == LET q == First(s, 1, {61}) n == TLCEval(Decode(TLCEval(SubSeq(s, 1, q - 1)))) v == TLCEval(IF q > Len(s) THEN NoText ELSE Decode(TLCEval(SubSeq(s, q + 1, Len(s)))))
              IN [n |-> n, v |-> v, lx |-> Has0(n) \/ Has0(v)]
RECURSIVE Fields(_, _, _)
Fields(t, p, acc) == IF p > Len(t) THEN acc
    ELSE LET q == First(t, p, {38, 63}) s == TLCEval(SubSeq(t, p, q - 1)) IN Fields(t, q + 1, TLCEval(Append(acc, FieldOf(s))))
ParseUri(text) == LET t == TLCEval(LET a == Left(text, 1) IN SubSeq(text, a, Right(text, Len(text)))) q == First(t, 1, {63})
    IN [origin |-> IF t = <<>> \/ t[1] = 63 THEN NoText ELSE SubSeq(t, 1, q - 1), f |-> IF q > Len(t) THEN <<>> ELSE Fields(t, q + 1, <<>>), lx |-> \E k \in 1..Len(t) : t[k] \in Blanks]
------------------------------------------------------------------------------
(* x: the fields as recorded from the code *)
OriginName == <<95, 95, 122, 112, 108, 95, 111, 114, 105, 103, 105, 110, 95, 95>>          \* __zpl_origin__
Offset(r) == IF r.origin = NoText THEN 0 ELSE 1
IsNumber(s) == LET n == NumberAt(s, 1, NoName) IN IF n.ok THEN n.p = Len(s) + 1 ELSE FALSE
Reads(f, c) == c.n = f.n /\ IF f.v = NoText THEN c.k = "true"
                            ELSE IF ~IsNumber(f.v) THEN c.k = "str" /\ c.s = f.v
                            ELSE LET n == NumberAt(f.v, 1, c.n) IN IF (n.x.k = "int" \/ n.lx) /\ Len(f.v) > 18 THEN c.k = "str" /\ c.s = f.v ELSE c.k # "str" /\ (n.lx \/ Same(n.x, c))
SameFields(r, x) == /\ x.k = "obj" /\ Len(x.c) = Len(r.f) + Offset(r)
                    /\ r.origin # NoText => x.c[1].k = "str" /\ x.c[1].n = OriginName /\ x.c[1].s = r.origin
                    /\ \A i \in 1..Len(r.f) : r.f[i].lx \/ Reads(r.f[i], x.c[i + Offset(r)])
\* what fields were written as: keys and texts to the letter, numbers as the writer keeps them
Writes(c, f) == c.n = f.n /\ CASE c.k = "true" -> f.v = NoText
                               [] c.k = "str" -> f.v = (IF c.s = NoText THEN <<>> ELSE c.s)
                               [] c.k = "bad" -> TRUE
                               [] OTHER -> (c.k = "real" /\ c.e > 17) \/ (IsNumber(f.v) /\ LET y == NumberAt(f.v, 1, NoName).x IN IF c.k = "int" THEN y.k = "int" /\ (IF y.h # <<>> THEN y.h = c.h ELSE y.s = c.s /\ y.neg = c.neg) ELSE NearSix(c, y))
Others(x) == SelectSeq(x.c, LAMBDA c : c.n # OriginName)
Origins(x) == SelectSeq(x.c, LAMBDA c : c.n = OriginName)
\* a bare empty key in the last place leaves nothing to write
Last0(o) == o # <<>> /\ o[Len(o)].k = "true" /\ o[Len(o)].n = <<>>
KeptFields(x, r) == LET o == Others(x) n == Len(o) - (IF Last0(o) THEN 1 ELSE 0) IN
    /\ r.origin = (IF Origins(x) = <<>> \/ Origins(x)[1].s = <<>> THEN NoText ELSE Origins(x)[1].s)
    /\ Len(r.f) \in {n, Len(o)} /\ \A i \in 1..Len(r.f) : Writes(o[i], r.f[i])
=============================================================================

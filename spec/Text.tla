-------------------------------- MODULE Text --------------------------------
(* Meaning of the character and C-string helpers. A text is a sequence of bytes 1..255; positions returned are zero based. *)
EXTENDS Integers, Sequences, FiniteSets
Between(c, a, b) == c >= a /\ c <= b
Upper(c) == IF Between(c, 97, 122) THEN c - 32 ELSE c
Lower(c) == IF Between(c, 65, 90) THEN c + 32 ELSE c
IsSpace(c) == c \in {32, 9, 10, 11, 12, 13}
IsDigit(c) == Between(c, 48, 57)
IsHex(c) == IsDigit(c) \/ Between(c, 65, 70) \/ Between(c, 97, 102)
IsAlpha(c) == Between(c, 65, 90) \/ Between(c, 97, 122)
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF Between(c, 97, 102) THEN c - 87 ELSE IF Between(c, 65, 70) THEN c - 55 ELSE -1
IsControl(c) == c \in {34, 92, 47, 98, 102, 110, 114, 116}
Map(F(_), s) == [k \in 1..Len(s) |-> F(s[k])]
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
TMin(x, y) == IF x < y THEN x ELSE y
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
At(s, k) == IF k <= Len(s) THEN s[k] ELSE 0
Cmp(s, t) == LET D == {k \in 1..Len(s) + 1 : At(s, k) # At(t, k)} IN IF D = {} THEN Sgn(Len(s) - Len(t)) ELSE LET k == SetMin(D) IN Sgn(At(s, k) - At(t, k))
Prefix(s, n) == SubSeq(s, 1, TMin(n, Len(s)))
NCmp(s, t, n) == Cmp(Prefix(s, n), Prefix(t, n))
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
Zeros(n) == [k \in 1..n |-> 0]
PadTo(s, n) == s \o Zeros(n - Len(s))
\* strncpy fills exactly n bytes; strlcpy always leaves a terminator among them
NCpy(s, n) == PadTo(Prefix(s, n), n)
LCpy(s, n) == IF n = 0 THEN <<>> ELSE PadTo(Prefix(s, n - 1), n)
FirstPos(s, c) == LET D == {k \in 1..Len(s) : s[k] = c} IN IF c = 0 THEN Len(s) ELSE IF D = {} THEN -1 ELSE SetMin(D) - 1
LastPos(s, c) == LET D == {k \in 1..Len(s) : s[k] = c} IN IF c = 0 THEN Len(s) ELSE IF D = {} THEN -1 ELSE SetMax(D) - 1
HasPrefix(s, t) == Len(t) <= Len(s) /\ SubSeq(s, 1, Len(t)) = t
HasSuffix(s, t) == Len(t) <= Len(s) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
SkipTo(s, c) == LET D == {k \in 1..Len(s) : s[k] = c} IN IF D = {} THEN Len(s) ELSE SetMin(D) - 1
SkipAny(s, cs) == LET D == {k \in 1..Len(s) : \E j \in 1..Len(cs) : cs[j] = s[k]} IN IF D = {} THEN Len(s) ELSE SetMin(D) - 1
\* a position is escaped when an odd run of backslashes stands directly in front of it
EscapedAt(s, k) == LET m == CHOOSE j \in 0..k - 1 : (\A q \in k - j..k - 1 : s[q] = 92) /\ (j = k - 1 \/ s[k - j - 1] # 92) IN m % 2 = 1
SkipLiteral(s, c) == LET D == {k \in 1..Len(s) : s[k] = c /\ ~EscapedAt(s, k)} IN IF D = {} THEN Len(s) ELSE SetMin(D) - 1
ControlSkip(s, c) == IF IsControl(c) THEN SkipLiteral(s, c) ELSE SkipTo(s, c)
TrimPos(s, nl) == LET D == {k \in 1..Len(s) : ~IsSpace(s[k]) \/ (nl /\ s[k] = 10)} IN IF D = {} THEN Len(s) ELSE SetMin(D) - 1
Tok(s, d) == Prefix(s, SkipAny(s, d))
TokNext(s, d) == LET k == SkipAny(s, d) IN IF k < Len(s) THEN k + 1 ELSE k
NTok(s, n, d) == Prefix(Tok(s, d), n - 1)
NTokNext(s, n, d) == LET k == Len(NTok(s, n, d)) IN IF k < Len(s) THEN k + 1 ELSE k
StripCr(s) == IF s # <<>> /\ s[Len(s)] = 13 THEN SubSeq(s, 1, Len(s) - 1) ELSE s
\* lines end at line feeds (a carriage return in front belongs to the ending); a last line needs no ending; with strip, empty lines are dropped
RECURSIVE Lines(_, _)
Lines(s, strip) == IF s = <<>> THEN <<>>
                   ELSE LET k == SkipTo(s, 10) raw == Prefix(s, k) IN
                        IF k = Len(s) THEN <<s>>
                        ELSE (IF strip /\ raw = <<>> THEN <<>> ELSE <<StripCr(raw)>>) \o Lines(SubSeq(s, k + 2, Len(s)), strip)
=============================================================================

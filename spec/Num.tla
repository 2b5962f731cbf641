--------------------------------- MODULE Num ---------------------------------
(* 64-bit integers as NL limbs of base LB (little endian), their text in a base, and decimal text against binary floating point. *)
EXTENDS Integers, Sequences
LB == 65536
NL == 4
HALF == LB \div 2
Zero64 == [k \in 1..NL |-> 0]
IsZero(v) == \A k \in 1..Len(v) : v[k] = 0
\* big naturals: limb sequences of any length
RECURSIVE DivS(_, _, _, _)
DivS(v, d, k, r) == IF k = 0 THEN <<<<>>, r>> ELSE LET x == r * LB + v[k] q == DivS(v, d, k - 1, x % d) IN <<Append(q[1], x \div d), q[2]>>
DivSmall(v, d) == DivS(v, d, Len(v), 0)              \* <<quotient limbs, remainder>>
RECURSIVE MulA(_, _, _, _)
MulA(v, m, k, c) == IF k > Len(v) THEN (IF c = 0 THEN <<>> ELSE <<c>>) ELSE LET x == v[k] * m + c IN <<x % LB>> \o MulA(v, m, k + 1, x \div LB)
MulAdd(v, m, c) == MulA(v, m, 1, c)                  \* v*m + c, as long as it gets
Fit(v) == [k \in 1..NL |-> IF k <= Len(v) THEN v[k] ELSE 0]       \* modulo LB^NL
RECURSIVE IncA(_, _)
IncA(v, k) == IF k > Len(v) THEN v ELSE IF v[k] < LB - 1 THEN [v EXCEPT ![k] = v[k] + 1] ELSE IncA([v EXCEPT ![k] = 0], k + 1)
Neg(v) == IncA([k \in 1..Len(v) |-> LB - 1 - v[k]], 1)
IsNeg(v) == v[NL] >= HALF
DigitChar(d) == IF d < 10 THEN 48 + d ELSE IF d < 36 THEN 55 + d ELSE IF d < 62 THEN 61 + d ELSE IF d = 62 THEN 64 ELSE 36
RECURSIVE UDigits(_, _)
UDigits(v, b) == LET q == DivSmall(v, b) IN IF IsZero(q[1]) THEN <<q[2]>> ELSE Append(UDigits(q[1], b), q[2])
Chars(ds) == [k \in 1..Len(ds) |-> DigitChar(ds[k])]
UText(v, b) == Chars(UDigits(v, b))
IText(v, b) == IF IsNeg(v) THEN <<45>> \o UText(Neg(v), b) ELSE UText(v, b)
DigVal(c) == IF c >= 48 /\ c <= 57 THEN c - 48 ELSE IF c >= 97 /\ c <= 122 THEN c - 87 ELSE IF c >= 65 /\ c <= 90 THEN c - 55 ELSE 99
RECURSIVE Scan(_, _, _, _)
Scan(s, b, k, v) == IF k <= Len(s) /\ DigVal(s[k]) < b THEN Scan(s, b, k + 1, Fit(MulAdd(v, b, DigVal(s[k])))) ELSE [v |-> v, n |-> k - 1]
Has0x(s, k) == Len(s) >= k + 1 /\ s[k] = 48 /\ s[k + 1] = 120
Base(s, b) == IF b # 0 THEN b ELSE IF Len(s) > 2 /\ Has0x(s, 1) THEN 16 ELSE 10
ParseU(s, b0) == LET b == Base(s, b0) IN Scan(s, b, IF b = 16 /\ Has0x(s, 1) THEN 3 ELSE 1, Zero64)
ParseI(s, b0) == LET b == Base(s, b0) neg == s # <<>> /\ s[1] = 45 k == IF neg THEN 2 ELSE 1
                     r == Scan(s, b, IF b = 16 /\ Has0x(s, k) THEN k + 2 ELSE k, Zero64)
                 IN [v |-> IF neg THEN Neg(r.v) ELSE r.v, n |-> r.n]
------------------------------------------------------------------------------
(* decimal text versus double *)
Trunc(v) == IF \E k \in 1..Len(v) : v[k] # 0 THEN SubSeq(v, 1, CHOOSE k \in 1..Len(v) : v[k] # 0 /\ \A j \in k + 1..Len(v) : v[j] = 0) ELSE <<>>
RECURSIVE CmpK(_, _, _)
CmpK(a, b, k) == IF k = 0 THEN 0 ELSE IF a[k] # b[k] THEN (IF a[k] < b[k] THEN -1 ELSE 1) ELSE CmpK(a, b, k - 1)
BCmp(a0, b0) == LET a == Trunc(a0) b == Trunc(b0) IN IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE CmpK(a, b, Len(a))
RECURSIVE SubA(_, _, _, _)
SubA(a, b, k, br) == IF k > Len(a) THEN <<>> ELSE LET x == a[k] - (IF k <= Len(b) THEN b[k] ELSE 0) - br IN <<IF x < 0 THEN x + LB ELSE x>> \o SubA(a, b, k + 1, IF x < 0 THEN 1 ELSE 0)
BSub(a, b) == SubA(Trunc(a), Trunc(b), 1, 0)          \* a >= b
BDiff(a, b) == IF BCmp(a, b) >= 0 THEN BSub(a, b) ELSE BSub(b, a)
RECURSIVE AddA(_, _, _, _)
AddA(a, b, k, c) == IF k > Len(a) /\ k > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                    ELSE LET x == (IF k <= Len(a) THEN a[k] ELSE 0) + (IF k <= Len(b) THEN b[k] ELSE 0) + c IN <<x % LB>> \o AddA(a, b, k + 1, x \div LB)
BAdd(a, b) == AddA(a, b, 1, 0)
RECURSIVE Pow10(_, _)
Pow10(v, n) == IF n <= 0 THEN v ELSE IF n >= 4 THEN Pow10(MulAdd(v, 10000, 0), n - 4) ELSE Pow10(MulAdd(v, 10, 0), n - 1)
RECURSIVE Shl(_, _)
Shl(v, n) == IF n <= 0 THEN v ELSE IF n >= 16 THEN Shl(<<0>> \o v, n - 16) ELSE MulAdd(v, 2^n, 0)
ShrBig(v, n) == LET k == n \div 16 IN IF k >= Len(v) THEN <<>> ELSE DivSmall(SubSeq(v, k + 1, Len(v)), 2^(n % 16))[1]   \* floor(v / 2^n)
RECURSIVE DecDigits(_)
DecDigits(v) == LET t == Trunc(v) IN IF t = <<>> THEN <<>> ELSE LET q == DivSmall(t, 10) IN Append(DecDigits(q[1]), 48 + q[2])   \* no digits for zero
RECURSIVE DecVal(_, _)
DecVal(s, v) == IF s = <<>> THEN v ELSE DecVal(Tail(s), MulAdd(v, 10, Head(s) - 48))
RECURSIVE SmallDec(_, _)
SmallDec(s, v) == IF s = <<>> THEN v ELSE SmallDec(Tail(s), IF v > 100000 THEN v ELSE v * 10 + Head(s) - 48)
\* a double as sign, integral significand and binary exponent
DSign(d) == d[4] >= 32768
DExp(d) == (d[4] \div 16) % 2048
DMant(d) == <<d[1], d[2], d[3], (d[4] % 16) + IF DExp(d) = 0 THEN 0 ELSE 16>>
DPow(d) == (IF DExp(d) = 0 THEN 1 ELSE DExp(d)) - 1075
IsDig(c) == c >= 48 /\ c <= 57
RECURSIVE DigRun(_, _)
DigRun(s, k) == IF k <= Len(s) /\ IsDig(s[k]) THEN DigRun(s, k + 1) ELSE k
IsSp(c) == c \in {32, 9, 10, 11, 12, 13}
RECURSIVE SpRun(_, _)
SpRun(s, k) == IF k <= Len(s) /\ IsSp(s[k]) THEN SpRun(s, k + 1) ELSE k
\* the decimal number at the front of s: sign, digits, decimal exponent, characters used
FloatText(s) == LET k0 == SpRun(s, 1)
                    sg == k0 <= Len(s) /\ s[k0] \in {43, 45}
                    k1 == IF sg THEN k0 + 1 ELSE k0
                    k2 == DigRun(s, k1)
                    dot == k2 <= Len(s) /\ s[k2] = 46
                    k3 == IF dot THEN DigRun(s, k2 + 1) ELSE k2
                    frac == IF dot THEN SubSeq(s, k2 + 1, k3 - 1) ELSE <<>>
                    ex == k3 <= Len(s) /\ s[k3] \in {69, 101}
                    es == ex /\ k3 + 1 <= Len(s) /\ s[k3 + 1] \in {43, 45}
                    k4 == IF ex THEN (IF es THEN k3 + 2 ELSE k3 + 1) ELSE k3
                    k5 == IF ex THEN DigRun(s, k4) ELSE k3
                    e == IF ex THEN SmallDec(SubSeq(s, k4, k5 - 1), 0) ELSE 0
                IN [neg |-> sg /\ s[k0] = 45, dig |-> DecVal(SubSeq(s, k1, k2 - 1) \o frac, <<>>),
                    exp |-> (IF es /\ s[k3 + 1] = 45 THEN -e ELSE e) - Len(frac), n |-> k5 - 1]
\* |d - text| <= |text| / 2^bits ; exact when bits = 0 is asked for via Exactly
Sides(d, t) == LET p == DPow(d) IN <<Pow10(Shl(DMant(d), p), -t.exp), Pow10(Shl(t.dig, -p), t.exp)>>
Near(d, t, bits) == LET x == Sides(d, t) IN /\ BCmp(Shl(BDiff(x[1], x[2]), bits), x[2]) <= 0 /\ (~IsZero(t.dig) => DSign(d) = t.neg)
Exactly(d, t) == LET x == Sides(d, t) IN BCmp(x[1], x[2]) = 0 /\ (~IsZero(t.dig) => DSign(d) = t.neg)
IntegerFits(t) == t.exp >= 0 /\ t.exp <= 22 /\ BCmp(Pow10(t.dig, t.exp), <<0, 0, 0, 32>>) <= 0
=============================================================================

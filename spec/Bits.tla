-------------------------------- MODULE Bits --------------------------------
(* Words as rows of bits, the lowest first.                                                                                                                       *)
EXTENDS Integers, Sequences, FiniteSets
Bytes(w) == [b \in 1..Len(w) \div 8 |-> SubSeq(w, (8 * b) - 7, 8 * b)]
RECURSIVE Flat(_)
Flat(bs) == IF bs = <<>> THEN <<>> ELSE Head(bs) \o Flat(Tail(bs))
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
Swapped(w) == Flat(Rev(Bytes(w)))
Ones(w) == Cardinality({k \in 1..Len(w) : w[k] = 1})
SetBit(w, b) == [w EXCEPT ![b + 1] = 1]
ClearBit(w, b) == [w EXCEPT ![b + 1] = 0]
HasBit(w, b) == w[b + 1] = 1
Mask(w, set, m) == [k \in 1..Len(w) |-> IF m[k] = 1 THEN (IF set THEN 1 ELSE 0) ELSE w[k]]
Pow(n) == 2 ^ n
NextPow2(x) == Pow(CHOOSE n \in 0..30 : Pow(n) >= x /\ \A m \in 0..n - 1 : Pow(m) < x)
Max(a, b) == IF a < b THEN b ELSE a
Min(a, b) == IF a < b THEN a ELSE b
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Abs(x) == IF x < 0 THEN -x ELSE x
=============================================================================

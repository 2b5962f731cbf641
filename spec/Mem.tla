--------------------------------- MODULE Mem ---------------------------------
(* Raw memory: m is the byte contents of one allocation (1-based sequence); offsets are zero based. *)
EXTENDS Integers, Sequences
VARIABLE m
Rng(o, n) == SubSeq(m, o + 1, o + n)
InB(o, n) == o >= 0 /\ n >= 0 /\ o + n <= Len(m)
Splice(s, o, t) == SubSeq(s, 1, o) \o t \o SubSeq(s, o + Len(t) + 1, Len(s))
Fill(c, n) == [i \in 1..n |-> c]
Move(d, s, n) == InB(d, n) /\ InB(s, n) /\ m' = Splice(m, d, Rng(s, n))
SetB(d, c, n) == InB(d, n) /\ m' = Splice(m, d, Fill(c, n))
Swap(i, j, n) == InB(i, n) /\ InB(j, n) /\ (i = j \/ i + n <= j \/ j + n <= i) /\ m' = Splice(Splice(m, i, Rng(j, n)), j, Rng(i, n))
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
\* sign of the first difference, 0 if equal
Compare(a, b, n) == LET D == {k \in 1..n : m[a + k] # m[b + k]} IN
                    IF D = {} THEN 0 ELSE LET k == CHOOSE x \in D : \A y \in D : x <= y IN Sgn(m[a + k] - m[b + k])
FirstAt(o, n, c) == LET D == {k \in 0..n - 1 : m[o + k + 1] = c} IN IF D = {} THEN -1 ELSE CHOOSE x \in D : \A y \in D : x <= y
LastAt(o, n, c) == LET D == {k \in 0..n - 1 : m[o + k + 1] = c} IN IF D = {} THEN -1 ELSE CHOOSE x \in D : \A y \in D : x >= y
AlignUp(v, a) == v + ((-v) % a)
PowTwo(x) == x > 0 /\ \E k \in 0..30 : x = 2^k
=============================================================================

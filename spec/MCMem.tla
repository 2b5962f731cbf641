-------------------------------- MODULE MCMem --------------------------------
(* All operations on all ranges of a small memory; laws between them. *)
EXTENDS Mem, TLC
CONSTANTS N, Vals
Init == m \in [1..N -> Vals]
R == 0..N
Next == \/ \E d, s, n \in R : Move(d, s, n)
        \/ \E d, n \in R, c \in Vals : SetB(d, c, n)
        \/ \E i, j, n \in R : Swap(i, j, n)
Laws == /\ \A a, b, n \in R : InB(a, n) /\ InB(b, n) => Compare(a, b, n) = -Compare(b, a, n) /\ ((Compare(a, b, n) = 0) <=> Rng(a, n) = Rng(b, n))
        /\ \A o, n \in R, c \in Vals : InB(o, n) => LET f == FirstAt(o, n, c) g == LastAt(o, n, c) IN
              ((f = -1) <=> (g = -1)) /\ f <= g /\ (f >= 0 => m[o + f + 1] = c /\ \A k \in 0..f - 1 : m[o + k + 1] # c)
Frame == [][Len(m') = Len(m) /\ \E lo, hi \in R : \A k \in 1..N : (k <= lo \/ k > hi) => m'[k] = m[k]]_m
Al == \A v \in -9..20, a \in 1..8 : AlignUp(v, a) >= v /\ AlignUp(v, a) % a = 0 /\ AlignUp(v, a) - v < a
=============================================================================

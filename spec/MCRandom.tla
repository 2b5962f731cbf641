------------------------------ MODULE MCRandom ------------------------------
(* The construction at a small word size: squaring modulo a prime p = 3 (mod 4), reflected in its upper half, then an offset and an
   exclusive or, is a permutation of the words; so a counter pushed through any number of rounds never repeats within one period. *)
EXTENDS Integers, FiniteSets, Sequences, Bitwise
CONSTANTS P, W, XorC, Rounds
VARIABLES off, start, k, seen
vars == <<off, start, k, seen>>
Qpr(x) == IF x >= P THEN x ELSE LET r == (x * x) % P IN IF x <= P \div 2 THEN r ELSE P - r
Round(x, o) == ((Qpr(x) + o) % W) ^^ XorC
RECURSIVE Run(_, _)
Run(x, os) == IF os = <<>> THEN x ELSE Run(Round(x, Head(os)), Tail(os))
Init == off \in [1..Rounds -> 0..W - 1] /\ start \in {0, W - 2} /\ k = 0 /\ seen = {}
Next == k < W /\ seen' = seen \union {Run((start + k) % W, off)} /\ k' = k + 1 /\ UNCHANGED <<off, start>>
Spec == Init /\ [][Next]_vars
NeverRepeats == Cardinality(seen) = k
=============================================================================

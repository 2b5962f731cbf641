------------------------------- MODULE MCBits -------------------------------
(* A register of Width bits under set, clear and mask, beside the set of the bits that are on; and, in every state, what shifting and smearing make of the number. *)
EXTENDS Bits, TLC, Json
CONSTANTS Width, Depth
VARIABLES w, on, hist
vars == <<w, on, hist>>
B == 0..Width - 1
Word(s) == [k \in 1..Width |-> IF k - 1 \in s THEN 1 ELSE 0]
Log(o) == hist' = Append(hist, o)
Init == w = Word({}) /\ on = {} /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \/ \E b \in B : w' = SetBit(w, b) /\ on' = on \union {b} /\ Log(<<"set", b>>)
           \/ \E b \in B : w' = ClearBit(w, b) /\ on' = on \ {b} /\ Log(<<"clear", b>>)
           \/ \E s \in {{x \in B : x % 2 = 0}, {x \in B : x < Width \div 2}}, f \in BOOLEAN : w' = Mask(w, f, Word(s)) /\ on' = (IF f THEN on \union s ELSE on \ s) /\ Log(<<"mask", IF f THEN 1 ELSE 0, Word(s)>>)
Spec == Init /\ [][Next]_vars
RECURSIVE Val(_, _)
Val(x, k) == IF k = 0 THEN 0 ELSE (IF x[k] = 1 THEN Pow(k - 1) ELSE 0) + Val(x, k - 1)
\* the usual way to the next power of two: every bit below the highest is filled
Or(a, b) == [k \in 1..Width |-> IF a[k] = 1 \/ b[k] = 1 THEN 1 ELSE 0]
Shr(a, n) == [k \in 1..Width |-> IF k + n <= Width THEN a[k + n] ELSE 0]
Smear(a) == LET x1 == Or(a, Shr(a, 1)) IN LET x2 == Or(x1, Shr(x1, 2)) IN LET x4 == Or(x2, Shr(x2, 4)) IN LET x8 == Or(x4, Shr(x4, 8)) IN x8
Words == w = Word(on) /\ \A b \in B : HasBit(w, b) <=> b \in on
Counts == Ones(w) = Cardinality(on)
Smears == on # {} => Val(Smear(w), Width) + 1 = NextPow2(Val(w, Width) + 1)
Swaps == Width % 8 = 0 => /\ Swapped(Swapped(w)) = w /\ Ones(Swapped(w)) = Ones(w)
                          /\ \A b \in B : HasBit(w, b) <=> HasBit(Swapped(w), Width - 8 - (8 * (b \div 8)) + (b % 8))
View == <<w, on, Len(hist)>>
Emit == Len(hist') = Depth => PrintT(<<"VP-HIST", ToJson(hist')>>)
=============================================================================

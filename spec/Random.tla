------------------------------- MODULE Random -------------------------------
(* The generator as a deterministic machine: the state alone decides the value and the next state.  Values are little-endian bytes. *)
EXTENDS Sort, TLC
SignedLE(b) == FlipTop(Rev(b))
InRange(lo, hi, v) == ~Less(SignedLE(v), SignedLE(lo)) /\ ~Less(SignedLE(hi), SignedLE(v))
InRangeF(lo, hi, v) == ~Less(FKey0(Rev(v)), FKey0(Rev(lo))) /\ ~Less(FKey0(Rev(hi)), FKey0(Rev(v)))
\* memory of what each state gave: a second visit must give the same
Agrees(memo, k, r) == k \in DOMAIN memo => memo[k] = r
Learn(memo, k, r) == (k :> r) @@ memo
Distinct(s) == Cardinality({s[k] : k \in 1..Len(s)})
=============================================================================

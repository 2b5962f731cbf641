-------------------------------- MODULE MCNum --------------------------------
(* Small word (2 limbs of base 16): every value, every base; round trip, negation, and modular parsing. *)
EXTENDS Num, TLC
LBSmall == 16
NLSmall == 2
VARIABLES v, b
Vals == [1..2 -> 0..15]
Init == v \in Vals /\ b \in 2..36
Next == UNCHANGED <<v, b>>
Val(x) == x[1] + 16 * x[2]
RT == /\ ParseU(UText(v, b), b) = [v |-> v, n |-> Len(UText(v, b))]
      /\ ParseI(IText(v, b), b) = [v |-> v, n |-> Len(IText(v, b))]
      /\ Neg(Neg(v)) = v /\ (Val(v) + Val(Neg(v))) % 256 = 0
      /\ Len(UText(v, b)) > 1 => UText(v, b)[1] # 48
      /\ LET q == DivSmall(v, b) IN Val(q[1]) = Val(v) \div b /\ q[2] = Val(v) % b
      /\ LET w == [k \in 1..2 |-> (v[k] * 7 + b) % 16] IN BCmp(v, w) = (IF Val(v) < Val(w) THEN -1 ELSE IF Val(v) > Val(w) THEN 1 ELSE 0)
            /\ Val(BDiff(v, w) \o <<0, 0>>) = (IF Val(v) < Val(w) THEN Val(w) - Val(v) ELSE Val(v) - Val(w))
=============================================================================

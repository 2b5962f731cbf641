-------------------------------- MODULE MCUtf --------------------------------
(* Every code point (in steps around every boundary) encodes to bytes that decode back; every short byte string decodes within bounds. *)
EXTENDS UtfEnc, FiniteSets
CONSTANT Bytes
VARIABLES r, s
Starts == {0, 120, 2040, 55200, 57340, 65520, 1114100} \cup {k * 4096 + 17 : k \in 0..272}
Init == \/ r \in UNION {x..x + 40 : x \in Starts} /\ s = <<>>
        \/ r = 0 /\ \E n \in 0..4 : s \in [1..n -> Bytes]
Next == UNCHANGED <<r, s>>
RT == Scalar(r) => Dec(Enc(r)) = [w |-> Len(Enc(r)), r |-> r]
Inv == ~Scalar(r) => Enc(r) = Enc(RuneInvalid)
\* unique decodability: whatever decodes to a scalar of full width re-encodes to the same bytes; widths stay inside
Tot == LET d == Dec(s) IN /\ d.w <= Len(s) /\ (s # <<>> => d.w \in 1..4)
                          /\ (d.w > 1 \/ (s # <<>> /\ s[1] < 128) => Scalar(d.r) /\ Enc(d.r) = SubSeq(s, 1, d.w))
                          /\ (d.w = 1 /\ s # <<>> /\ s[1] >= 128 => d.r = RuneInvalid)
=============================================================================

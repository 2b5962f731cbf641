-------------------------------- MODULE Hash --------------------------------
(* Published definitions of the checksums and hashes, on words held as little-endian byte sequences, and base64. *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC
XorW(a, b) == TLCEval([k \in 1..Len(a) |-> a[k] ^^ b[k]])
Not8(a) == TLCEval([k \in 1..Len(a) |-> 255 - a[k]])
\* low Len(a) bytes of the product
RECURSIVE Carry(_, _, _)
Carry(cols, k, c) == IF k > Len(cols) THEN <<>> ELSE <<(cols[k] + c) % 256>> \o Carry(cols, k + 1, (cols[k] + c) \div 256)
RECURSIVE Col(_, _, _, _)
Col(a, b, k, i) == IF i > k THEN 0 ELSE a[i] * b[k + 1 - i] + Col(a, b, k, i + 1)
Mul(a, b) == TLCEval(Carry(TLCEval([k \in 1..Len(a) |-> Col(a, b, k, 1)]), 1, 0))
Add(a, b) == TLCEval(Carry([k \in 1..Len(a) |-> a[k] + b[k]], 1, 0))
\* shift right by n bits
Byte(a, k) == IF k >= 1 /\ k <= Len(a) THEN a[k] ELSE 0
Shr(a, n) == TLCEval(LET q == n \div 8 r == n % 8 IN [k \in 1..Len(a) |-> (Byte(a, k + q) \div 2^r) + ((Byte(a, k + q + 1) * 2^(8 - r)) % 256)])
Shl(a, n) == TLCEval(LET q == n \div 8 r == n % 8 IN [k \in 1..Len(a) |-> ((Byte(a, k - q) * 2^r) % 256) + (Byte(a, k - q - 1) \div 2^(8 - r))])
Rotl(a, n) == LET x == Shl(a, n) y == Shr(a, 8 * Len(a) - n) IN TLCEval([k \in 1..Len(a) |-> x[k] + y[k]])
FromNat(v, w) == TLCEval([k \in 1..w |-> IF k > 4 THEN 0 ELSE (v \div 256^(k - 1)) % 256])     \* v < 2^31
------------------------------------------------------------------------------
(* reflected CRC: polynomial division one bit at a time *)
RECURSIVE Crc8(_, _, _)
Crc8(r, poly, n) == IF n = 0 THEN r ELSE Crc8(TLCEval(IF r[1] % 2 = 1 THEN XorW(Shr(r, 1), poly) ELSE Shr(r, 1)), poly, n - 1)
Poly32 == <<32, 131, 184, 237>>                                   \* EDB88320
Poly64 == <<181, 201, 75, 172, 41, 147, 172, 149>>                \* 95AC9329AC4BC9B5 (Jones), no inversion
Row32 == TLCEval([b \in 0..255 |-> Crc8(<<b, 0, 0, 0>>, Poly32, 8)])
Row64 == TLCEval([b \in 0..255 |-> Crc8(<<b, 0, 0, 0, 0, 0, 0, 0>>, Poly64, 8)])
CrcStep(r, c, row) == XorW(Tail(r) \o <<0>>, row[r[1] ^^ c])
Crc32(s) == Not8(FoldLeft(LAMBDA r, c : CrcStep(r, c, Row32), <<255, 255, 255, 255>>, s))
Crc64(s) == FoldLeft(LAMBDA r, c : CrcStep(r, c, Row64), [k \in 1..8 |-> 0], s)
Crc32Bits(s) == Not8(FoldLeft(LAMBDA r, c : Crc8(TLCEval([r EXCEPT ![1] = @ ^^ c]), Poly32, 8), <<255, 255, 255, 255>>, s))
Adler(s) == LET r == FoldLeft(LAMBDA x, c : TLCEval(<<(x[1] + c) % 65521, (x[2] + x[1] + c) % 65521>>), <<1, 0>>, s) IN FromNat(r[1], 2) \o FromNat(r[2], 2)
Prime32 == <<147, 1, 0, 1>>                                       \* 01000193
Basis32 == <<197, 157, 28, 129>>                                  \* 811C9DC5
Prime64 == <<179, 1, 0, 0, 0, 1, 0, 0>>                           \* 00000100000001B3
Basis64 == <<37, 35, 34, 132, 228, 156, 242, 203>>                \* CBF29CE484222325
Mix(h, c) == TLCEval([h EXCEPT ![1] = @ ^^ c])
Fnv(s, p, b) == FoldLeft(LAMBDA h, c : Mix(Mul(h, p), c), b, s)
Fnva(s, p, b) == FoldLeft(LAMBDA h, c : Mul(Mix(h, c), p), b, s)
\* blocks of w bytes and what is left
Blocks(s, w) == TLCEval([k \in 1..Len(s) \div w |-> SubSeq(s, (k - 1) * w + 1, k * w)])
Rest(s, w) == LET r == SubSeq(s, (Len(s) \div w) * w + 1, Len(s)) IN TLCEval([k \in 1..w |-> IF k <= Len(r) THEN r[k] ELSE 0])
C1 == <<81, 45, 158, 204>>                                        \* CC9E2D51
C2 == <<147, 53, 135, 27>>                                        \* 1B873593
Scr32(k) == Mul(Rotl(Mul(k, C1), 15), C2)
Fin32(h) == LET a == Mul(XorW(h, Shr(h, 16)), <<107, 202, 235, 133>>)      \* 85EBCA6B
                b == Mul(XorW(a, Shr(a, 13)), <<53, 174, 178, 194>>)       \* C2B2AE35
            IN XorW(b, Shr(b, 16))
Murmur3(s, seed) == LET h == FoldLeft(LAMBDA x, k : Add(Mul(Rotl(XorW(x, Scr32(k)), 13), <<5, 0, 0, 0>>), <<100, 107, 84, 230>>), seed, Blocks(s, 4))   \* E6546B64
                        t == IF Len(s) % 4 = 0 THEN h ELSE XorW(h, Scr32(Rest(s, 4)))
                    IN Fin32(XorW(t, FromNat(Len(s), 4)))
M64 == <<149, 233, 209, 91, 147, 167, 164, 198>>                  \* C6A4A7935BD1E995
Scr64(k) == LET a == Mul(k, M64) IN Mul(XorW(a, Shr(a, 47)), M64)
Mur64(s, seed, tail) == LET h0 == XorW(seed, Mul(FromNat(Len(s), 8), M64))
                            h == FoldLeft(LAMBDA x, k : Mul(XorW(x, Scr64(k)), M64), h0, Blocks(s, 8))
                            t == IF Len(s) % 8 = 0 THEN h ELSE Mul(XorW(h, tail), M64)
                            u == Mul(XorW(t, Shr(t, 47)), M64)
                        IN XorW(u, Shr(u, 47))
Murmur2A(s, seed) == Mur64(s, seed, Rest(s, 8))
\* recorded deviation (known finding): the code mixes the first bytes where the definition mixes the last ones
Murmur2AHead(s, seed) == Mur64(s, seed, Rest(SubSeq(s, 1, Len(s) % 8), 8))
DefSeed32 == <<140, 178, 71, 151>>                                \* 9747B28C
DefSeed64 == DefSeed32 \o <<0, 0, 0, 0>>
------------------------------------------------------------------------------
(* base64 (RFC 4648, padded) *)
Alphabet == <<65,66,67,68,69,70,71,72,73,74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,97,98,99,100,101,102,103,104,105,106,107,108,109,110,
              111,112,113,114,115,116,117,118,119,120,121,122,48,49,50,51,52,53,54,55,56,57,43,47>>
Pad == 61
Val64 == TLCEval([c \in 0..255 |-> IF \E k \in 1..64 : Alphabet[k] = c THEN (CHOOSE k \in 1..64 : Alphabet[k] = c) - 1 ELSE -1])
Group(t) == LET v == t[1] * 65536 + (IF Len(t) > 1 THEN t[2] ELSE 0) * 256 + (IF Len(t) > 2 THEN t[3] ELSE 0)
                d == [k \in 1..4 |-> Alphabet[((v \div 64^(4 - k)) % 64) + 1]]
            IN [k \in 1..4 |-> IF k <= Len(t) + 1 THEN d[k] ELSE Pad]
RECURSIVE Enc64(_)
Enc64(s) == IF s = <<>> THEN <<>> ELSE LET n == IF Len(s) < 3 THEN Len(s) ELSE 3 IN Group(SubSeq(s, 1, n)) \o Enc64(SubSeq(s, n + 1, Len(s)))
\* text that is whole groups of the alphabet with padding only at the very end
Valid64(t) == /\ Len(t) % 4 = 0
              /\ LET p == IF Len(t) > 0 /\ t[Len(t)] = Pad THEN (IF t[Len(t) - 1] = Pad THEN 2 ELSE 1) ELSE 0
                 IN \A k \in 1..Len(t) - p : Val64[t[k]] >= 0
UnGroup(t) == LET c(k) == IF t[k] = Pad THEN 0 ELSE Val64[t[k]]
                  v == ((c(1) * 64 + c(2)) * 64 + c(3)) * 64 + c(4)
                  n == IF t[3] = Pad THEN 1 ELSE IF t[4] = Pad THEN 2 ELSE 3
              IN [k \in 1..n |-> (v \div 256^(3 - k)) % 256]
RECURSIVE Dec64(_)
Dec64(t) == IF t = <<>> THEN <<>> ELSE UnGroup(SubSeq(t, 1, 4)) \o Dec64(SubSeq(t, 5, Len(t)))
=============================================================================

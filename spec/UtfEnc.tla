------------------------------- MODULE UtfEnc -------------------------------
(* UTF-8: encoding of one code point, decoding of one code point at a position, and UCS-2/UTF-16 units. *)
EXTENDS Integers, Sequences, TLC
RuneInvalid == 65533
RuneMax == 1114111
Surrogate(r) == r >= 55296 /\ r <= 57343
Scalar(r) == r >= 0 /\ r <= RuneMax /\ ~Surrogate(r)
Enc(r0) == LET r == IF Scalar(r0) THEN r0 ELSE RuneInvalid IN
           IF r < 128 THEN <<r>>
           ELSE IF r < 2048 THEN <<192 + r \div 64, 128 + (r % 64)>>
           ELSE IF r < 65536 THEN <<224 + r \div 4096, 128 + ((r \div 64) % 64), 128 + (r % 64)>>
           ELSE <<240 + r \div 262144, 128 + ((r \div 4096) % 64), 128 + ((r \div 64) % 64), 128 + (r % 64)>>
Cont(b) == b >= 128 /\ b <= 191
Bad == [w |-> 1, r |-> RuneInvalid]
\* decode the first code point of s: [w : width, r : value]; malformed input is the invalid rune of width one
Dec(s) == IF s = <<>> THEN [w |-> 0, r |-> RuneInvalid]
          ELSE LET b == s[1] n == Len(s) IN
               IF b < 128 THEN [w |-> 1, r |-> b]
               ELSE IF b >= 194 /\ b <= 223 THEN IF n >= 2 /\ Cont(s[2]) THEN [w |-> 2, r |-> (b - 192) * 64 + s[2] - 128] ELSE Bad
               ELSE IF b >= 224 /\ b <= 239 THEN
                    IF n >= 3 /\ Cont(s[2]) /\ Cont(s[3]) /\ (b = 224 => s[2] >= 160) /\ (b = 237 => s[2] < 160)
                    THEN [w |-> 3, r |-> (b - 224) * 4096 + (s[2] - 128) * 64 + s[3] - 128] ELSE Bad
               ELSE IF b >= 240 /\ b <= 244 THEN
                    IF n >= 4 /\ Cont(s[2]) /\ Cont(s[3]) /\ Cont(s[4]) /\ (b = 240 => s[2] >= 144) /\ (b = 244 => s[2] < 144)
                    THEN [w |-> 4, r |-> (b - 240) * 262144 + (s[2] - 128) * 4096 + (s[3] - 128) * 64 + s[4] - 128] ELSE Bad
               ELSE Bad
RECURSIVE Runes(_)
Runes(s) == IF s = <<>> THEN <<>> ELSE LET d == Dec(s) IN <<d>> \o Runes(SubSeq(s, d.w + 1, Len(s)))
Valid(s) == \A k \in 1..Len(Runes(s)) : LET d == Runes(s)[k] IN ~(d.w = 1 /\ d.r = RuneInvalid)
RECURSIVE Utf16(_)
Utf16(s) == IF s = <<>> THEN <<>> ELSE LET d == Dec(s) rest == Utf16(SubSeq(s, d.w + 1, Len(s))) IN
            IF d.r < 65536 THEN <<d.r>> \o rest ELSE <<55296 + (d.r - 65536) \div 1024, 56320 + ((d.r - 65536) % 1024)>> \o rest
=============================================================================

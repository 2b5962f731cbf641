------------------------------- MODULE MCHash -------------------------------
(* The definitions checked against published check values and against each other for every short input over a few byte values. *)
EXTENDS Hash
CONSTANTS Bytes, MaxLen
VARIABLES s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E c \in Bytes : s' = Append(s, c)
Spec == Init /\ [][Next]_s
Digits == <<49, 50, 51, 52, 53, 54, 55, 56, 57>>
ASSUME Crc32(Digits) = <<38, 57, 244, 203>>                                     \* CBF43926
ASSUME Crc64(Digits) = <<202, 217, 184, 196, 20, 217, 198, 233>>                \* E9C6D914C4B8D9CA
ASSUME Adler(<<87, 105, 107, 105, 112, 101, 100, 105, 97>>) = <<152, 3, 230, 17>>  \* "Wikipedia": 11E60398
ASSUME Fnva(<<102, 111, 111, 98, 97, 114>>, Prime32, Basis32) = <<104, 249, 156, 191>>   \* "foobar": BF9CF968
ASSUME Fnv(<<102, 111, 111, 98, 97, 114>>, Prime32, Basis32) = <<98, 178, 240, 49>>      \* 31F0B262
ASSUME Fnva(<<97>>, Prime64, Basis64) = <<140, 236, 1, 134, 76, 220, 99, 175>>           \* "a": AF63DC4C8601EC8C
ASSUME Murmur3(<<>>, <<1, 0, 0, 0>>) = <<183, 40, 78, 81>>                               \* 514E28B7
ASSUME Murmur3(<<33, 67, 101, 135>>, <<0, 0, 0, 0>>) = <<107, 81, 91, 245>>              \* F55B516B
\* division by the polynomial: appending the checksum gives the constant residue
Residue == Crc32(s \o Crc32(s)) = <<28, 223, 68, 33>>                                    \* 2144DF1C
TableIsDivision == Crc32(s) = Crc32Bits(s)
RoundTrip64 == Valid64(Enc64(s)) /\ Dec64(Enc64(s)) = s /\ Len(Enc64(s)) = 4 * ((Len(s) + 2) \div 3)
=============================================================================

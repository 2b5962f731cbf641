-------------------------------- MODULE Sort --------------------------------
(* Sorting, searching, reversing and shuffling as relations between sequences.  Elements are byte strings; a key is read from an
   element at an offset and mapped to a sequence of naturals whose lexicographic order is the order of the key's type. *)
EXTENDS Integers, Sequences, FiniteSets
\* number of positions of s holding x
Occ(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})
Perm(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Occ(a, a[k]) = Occ(b, a[k])
RECURSIVE LexLess(_, _, _)
LexLess(a, b, k) == IF k > Len(b) THEN FALSE ELSE IF k > Len(a) THEN TRUE ELSE IF a[k] # b[k] THEN a[k] < b[k] ELSE LexLess(a, b, k + 1)
Less(a, b) == LexLess(a, b, 1)
Width(kind) == CASE kind = "u8" -> 1 [] kind \in {"i16", "u16"} -> 2 [] kind \in {"i32", "u32", "f32"} -> 4 [] OTHER -> 8
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
FlipTop(s) == [s EXCEPT ![1] = (s[1] + 128) % 256]
Inv(s) == [k \in 1..Len(s) |-> 255 - s[k]]
AllZero(s) == \A k \in 1..Len(s) : s[k] = 0
\* big-endian bytes of a little-endian IEEE value; both zeros are the same key
FKey(s) == IF s[1] >= 128 THEN (IF AllZero([s EXCEPT ![1] = s[1] - 128]) THEN FlipTop(s) ELSE Inv(s)) ELSE FlipTop(s)
FKey0(s) == IF s[1] >= 128 /\ AllZero([s EXCEPT ![1] = s[1] - 128]) THEN FlipTop([s EXCEPT ![1] = 0]) ELSE FKey(s)
Key(kind, e, off) == LET s == Rev(SubSeq(e, off + 1, off + Width(kind))) IN
    CASE kind \in {"u8", "u16", "u32", "u64"} -> s [] kind \in {"i16", "i32", "i64", "isize"} -> FlipTop(s) [] kind \in {"f32", "f64"} -> FKey0(s) [] OTHER -> s
Sorted(ks) == \A k \in 1..Len(ks) - 1 : ~Less(ks[k + 1], ks[k])
------------------------------------------------------------------------------
IsSortOf(in, out, inKeys, outKeys) == Perm(in, out) /\ Sorted(outKeys)
Found(keys, key, r) == IF r = -1 THEN \A k \in 1..Len(keys) : keys[k] # key ELSE r >= 0 /\ r < Len(keys) /\ keys[r + 1] = key
=============================================================================

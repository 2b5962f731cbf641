------------------------------- MODULE MCText -------------------------------
(* Every short text over a small alphabet; laws of the helpers; every text is handed to the real code. *)
EXTENDS Text, TLC, Json
CONSTANTS Max
VARIABLE s
A == {97, 92, 34, 32, 10, 13, 255}
Init == s = <<>>
Next == \E c \in A : s' = Append(s, c)
Bound == Len(s) < Max
Emit == PrintT(<<"VP-HIST", ToJson(<<s'>>)>>)
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Cat(Tail(q))
Laws == /\ Rev(Rev(s)) = s /\ Map(Lower, Map(Upper, s)) = Map(Lower, s)
        /\ \A k \in 0..Len(s) : LET p == Prefix(s, k) t == SubSeq(s, k + 1, Len(s)) IN
             /\ HasPrefix(s, p) /\ HasSuffix(s, t) /\ p \o t = s
             /\ Cmp(s, p) = Sgn(Len(s) - k) /\ Cmp(p, s) = -Cmp(s, p) /\ NCmp(s, p, k) = 0
             /\ Len(LCpy(s, k)) = k /\ (k > 0 => LCpy(s, k)[k] = 0)
        /\ \A c \in A : FirstPos(s, c) <= LastPos(s, c) /\ SkipTo(s, c) <= Len(s) /\ SkipLiteral(s, c) >= SkipTo(s, c)
             /\ (SkipLiteral(s, c) < Len(s) => s[SkipLiteral(s, c) + 1] = c)
        /\ LET L == Lines(s, FALSE) M == Lines(s, TRUE) IN
             /\ \A j \in 1..Len(L) : FirstPos(L[j], 10) = -1
             /\ M = SelectSeq(Lines(s, FALSE), LAMBDA x : x # <<>>) \/ \E j \in 1..Len(s) : s[j] = 13
        /\ TrimPos(s, TRUE) <= TrimPos(s, FALSE) /\ TrimPos(SubSeq(s, TrimPos(s, FALSE) + 1, Len(s)), FALSE) = 0
=============================================================================

------------------------------ MODULE TraceUtf ------------------------------
EXTENDS UtfEnc, TraceLib
TInit == l = 1
LeadWidth(b) == IF b < 128 THEN 1 ELSE IF b \in 192..223 THEN 2 ELSE IF b \in 224..239 THEN 3 ELSE IF b \in 240..247 THEN 4 ELSE 0
ScalarCount(s) == Len(Runes(s))
Step == \/ Ev.op = "seg"
        \/ Ev.op = "enc" /\ Ev.b = Enc(Ev.r) /\ Ev.w = Len(Ev.b) /\ (Scalar(Ev.r) => Ev.back = Ev.r) /\ Ev.bw = Ev.w
        \/ Ev.op = "dec" /\ LET R == Runes(Ev.s) IN Len(R) = Len(Ev.w) /\ \A k \in 1..Len(R) : R[k].w = Ev.w[k] /\ R[k].r = Ev.r[k]
        \* length and validity helpers on terminated text, and the round trip through 16-bit units
        \/ Ev.op = "text" /\ (Valid(Ev.s) => Ev.len = ScalarCount(Ev.s) /\ Ev.nlen = ScalarCount(Ev.s) /\ Ev.u = Utf16(Ev.s) /\ Ev.back = Ev.s
                                             /\ Ev.tight = Utf16(Ev.s) /\ Ev.short = FALSE /\ Ev.tback = Ev.s /\ (Ev.s # <<>> => Ev.bshort = FALSE)
                                             /\ \A k \in DOMAIN Ev.upto : (k = Len(Ev.s) + 1 \/ ~Cont(Ev.s[k])) => Ev.upto[k] = ScalarCount(SubSeq(Ev.s, 1, k - 1)))   \* counting up to a limit between characters
                          /\ (~Valid(Ev.s) => Ev.u = <<-1>>)
        \/ Ev.op = "u2u" /\ Ev.ok = (\A k \in 1..Len(Ev.u) : ~(Ev.u[k] \in 56320..57343) \/ (k > 1 /\ Ev.u[k - 1] \in 55296..56319))
                         /\ (Ev.ok => Ev.out = Ev.exp)
        \/ Ev.op = "size" /\ Ev.n = (LET D == {k \in 1..Len(Ev.s) : ~Cont(Ev.s[k])} IN (IF D = {} THEN Len(Ev.s) ELSE (CHOOSE k \in D : \A j \in D : k <= j) - 1) + 1)
TNext == More /\ IF ENABLED Step THEN Step /\ Advance ELSE Reject
TSpec == TInit /\ [][TNext]_l
=============================================================================

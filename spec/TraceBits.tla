------------------------------ MODULE TraceBits ------------------------------
EXTENDS Bits, TraceLib
VARIABLES w
W0 == [k \in 1..32 |-> 0]
SInit == l = 1 /\ w = W0
All(x) == Ev.w = x /\ Ev.get = x
Do == CASE Ev.op = "seg" -> <<TRUE, W0>>
        [] Ev.op = "set" -> LET x == SetBit(w, Ev.b) IN <<All(x), x>>
        [] Ev.op = "clear" -> LET x == ClearBit(w, Ev.b) IN <<All(x), x>>
        [] Ev.op = "mask" -> LET x == Mask(w, Ev.set, Ev.m) IN <<All(x), x>>
        [] Ev.op = "swap" -> <<Ev.r = Swapped(Ev.v), w>>
        [] Ev.op = "count" -> <<Ev.r = Ones(Ev.v), w>>
        [] Ev.op = "pow2" -> <<Ev.r = NextPow2(Ev.v), w>>
        [] Ev.op = "order" -> <<Ev.ok, w>>
        [] Ev.op = "cmp" -> LET a == Ev.a
                                b == Ev.b
                                c == Ev.c IN
                            <<Ev.min = Min(a, b) /\ Ev.max = Max(a, b) /\ Ev.min3 = Min(Min(a, b), c) /\ Ev.max3 = Max(Max(a, b), c) /\ Ev.abs = Abs(a) /\ Ev.sw = <<b, a>>
                              /\ Ev.between = (b <= a /\ a <= c) /\ Ev.limit = (b <= a /\ a < c) /\ (b <= c => Ev.clamp = Clamp(a, b, c)) /\ Ev.unit = Clamp(a, 0, 1), w>>
        [] OTHER -> <<FALSE, w>>
SNext == More /\ LET o == TLCEval(Do) IN IF o[1] THEN w' = o[2] /\ Advance ELSE Reject /\ UNCHANGED w
TSpec == SInit /\ [][SNext]_<<l, w>>
=============================================================================

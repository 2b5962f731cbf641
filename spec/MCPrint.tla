------------------------------- MODULE MCPrint -------------------------------
(* Every directive over small flag, width, precision, size and value sets; laws of the rendered text. Each is handed to the real code. *)
EXTENDS Print, TLC, Json
CONSTANTS Widths, Precs
VARIABLE x
Vals == {<<0,0,0,0>>, <<1,0,0,0>>, <<255,0,0,0>>, <<128,0,0,0>>, <<32768,0,0,0>>, <<65535,65535,0,0>>, <<0,32768,0,0>>, <<65535,65535,65535,65535>>, <<0,0,0,32768>>, <<57920,1,7,0>>}
Sizes == {<<>>, <<104>>, <<104,104>>, <<108>>, <<108,108>>, <<122>>, <<116>>}
Convs == {100, 105, 117, 111, 120, 88}
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))
Fl == {<<>>, <<45>>, <<48>>, <<45, 48>>}
Init == x = [f |-> <<>>, v |-> <<0,0,0,0>>]
Next == x.f = <<>> /\ \E fl \in Fl, w \in Widths, p \in Precs, z \in Sizes, c \in Convs, v \in Vals :
          /\ (c \in {100, 105} => z # <<122>>) /\ (w = 0 => fl \in {<<>>, <<45>>}) /\ (p = 0 => v[1] = 1)
          /\ x' = [f |-> <<37>> \o fl \o (IF w = 0 THEN <<>> ELSE Dec(w)) \o (IF p = 99 THEN <<>> ELSE <<46>> \o Dec(p)) \o z \o <<c>>, v |-> v]
Emit == PrintT(<<"VP-HIST", ToJson(<<[f |-> x'.f, v |-> x'.v]>>)>>)
Laws == x.f # <<>> =>
  LET d == Directive(x.f, 2, <<>>).d
      t == Printed(x.f, <<[t |-> "i", v |-> x.v]>>)
      b == IntBody(d, x.v)
      w == LowBits(x.v, d.bits, Signed(d.conv))
      core == SubSeq(t, LeadSp(t, 1), TrailSp(t, Len(t)))
  IN /\ d.conv = x.f[Len(x.f)]
     /\ Len(t) = Max2(d.width, Len(b)) /\ Len(b) >= d.prec
     /\ ParseI(core, BaseOf(d.conv)).v = w /\ ParseI(core, BaseOf(d.conv)).n = Len(core)
     /\ LowBits(w, d.bits, Signed(d.conv)) = w
     /\ (d.bits = 64 => w = x.v)
     /\ \A k \in 0..Len(t) : Fits(SubSeq(t, 1, k), IF k = Len(t) THEN Len(t) + 1 ELSE -1, t, IF k = Len(t) THEN k + 2 ELSE k + 1)
=============================================================================

-------------------------------- MODULE Print --------------------------------
(* Formatted printing: the format text is parsed into literal bytes and directives, each directive takes its arguments and
   renders to the bytes C's printf prints for it.  Arguments: [t |-> "i", v |-> 64-bit limbs], [t |-> "s", b |-> bytes],
   [t |-> "n"] (null string), [t |-> "d", v |-> bits of a double].  Floats are rendered by exact truncation of their decimal expansion. *)
EXTENDS Num
Rep(c, n) == [k \in 1..n |-> c]
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
\* take the low `bits` bits of a 64-bit value (limbs of 16 bits), sign-extended when signed
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
LimbBits == IF LB = 65536 THEN 16 ELSE 4
LowBits(v, bits, signed) ==
  LET full == bits \div LimbBits  \* whole limbs kept
      low == IF full > 0 THEN [k \in 1..NL |-> IF k <= full THEN v[k] ELSE 0] ELSE [k \in 1..NL |-> IF k = 1 THEN v[1] % Pow2(bits) ELSE 0]
      neg == IF full > 0 THEN v[full] >= HALF ELSE low[1] >= Pow2(bits - 1)
  IN IF signed /\ neg THEN (IF full > 0 THEN [k \in 1..NL |-> IF k <= full THEN v[k] ELSE LB - 1]
                            ELSE [k \in 1..NL |-> IF k = 1 THEN low[1] + LB - Pow2(bits) ELSE LB - 1])
     ELSE low
Lower(s) == [k \in 1..Len(s) |-> IF s[k] >= 65 /\ s[k] <= 90 THEN s[k] + 32 ELSE s[k]]
\* lay out a rendered text: sign kept in front of zero padding; left justification wins over zero padding
Lay(body, d) ==
  LET pad == Max2(0, d.width - Len(body)) IN
  IF d.left THEN body \o Rep(32, pad)
  ELSE IF d.zero THEN (IF body # <<>> /\ body[1] = 45 THEN <<45>> \o Rep(48, pad) \o Tail(body) ELSE Rep(48, pad) \o body)
  ELSE Rep(32, pad) \o body
Signed(c) == c \in {100, 105}
BaseOf(c) == IF c = 111 THEN 8 ELSE IF c \in {120, 88, 112} THEN 16 ELSE 10
IntBody(d, v) ==
  LET w == LowBits(v, d.bits, Signed(d.conv))
      neg == Signed(d.conv) /\ IsNeg(w)
      t == UText(IF neg THEN Neg(w) ELSE w, BaseOf(d.conv))
      u == IF d.conv \in {120, 112} THEN Lower(t) ELSE t
  IN (IF neg THEN <<45>> ELSE <<>>) \o Rep(48, Max2(0, d.prec - Len(u))) \o u
IntText(d, v) == Lay(IntBody(d, v), IF d.prec >= 0 THEN [d EXCEPT !.zero = FALSE] ELSE d)
StrText(d, b) == Lay(IF d.prec >= 0 THEN SubSeq(b, 1, Min2(d.prec, Len(b))) ELSE b, d)
\* |v| truncated to p decimal places: integer part, point, p digits
FloatBody(bits, p) ==
  LET e == DPow(bits)
      n == Pow10(DMant(bits), p)
      q == IF e >= 0 THEN Shl(n, e) ELSE ShrBig(n, -e)
      ds == DecDigits(q)
      all == Rep(48, Max2(0, p + 1 - Len(ds))) \o ds
      ip == SubSeq(all, 1, Len(all) - p)
      fp == SubSeq(all, Len(all) - p + 1, Len(all))
  IN (IF DSign(bits) THEN <<45>> ELSE <<>>) \o ip \o (IF p > 0 THEN <<46>> \o fp ELSE <<>>)
FPrec(d) == IF d.prec < 0 THEN 6 ELSE d.prec
FZero(v) == \A k \in 1..3 : v[k] = 0 /\ v[4] \in {0, 32768}
FltText(d, v) == Lay(IF FZero(v) THEN <<48>> ELSE FloatBody(v, FPrec(d)), d)
------------------------------------------------------------------------------
\* the format text
RECURSIVE Flags(_, _, _)
Flags(f, k, d) == IF k > Len(f) THEN [k |-> k, d |-> d]
                  ELSE IF f[k] = 45 THEN Flags(f, k + 1, [d EXCEPT !.left = TRUE])
                  ELSE IF f[k] = 48 THEN Flags(f, k + 1, [d EXCEPT !.zero = TRUE]) ELSE [k |-> k, d |-> d]
SNum(s) == SmallDec([k \in 1..Len(s) |-> s[k]], 0)
IVal(a) == IF a.v[2] >= 32768 THEN (a.v[2] - 65536) * 65536 + a.v[1] ELSE a.v[2] * 65536 + a.v[1]
\* one directive at k (behind the percent sign): [d, k = index behind it, as = remaining arguments]
Directive(f, k0, as0) ==
  LET r1 == Flags(f, k0, [left |-> FALSE, zero |-> FALSE, width |-> 0, prec |-> -1, bits |-> 32, conv |-> 0])
      star == r1.k <= Len(f) /\ f[r1.k] = 42
      wv == IF star THEN IVal(Head(as0)) ELSE 0
      wk == IF star THEN r1.k + 1 ELSE DigRun(f, r1.k)
      as1 == IF star THEN Tail(as0) ELSE as0
      w == IF star THEN (IF wv < 0 THEN -wv ELSE wv) ELSE SNum(SubSeq(f, r1.k, wk - 1))
      d1 == [r1.d EXCEPT !.width = w, !.left = r1.d.left \/ wv < 0]
      dot == wk <= Len(f) /\ f[wk] = 46
      pstar == dot /\ wk + 1 <= Len(f) /\ f[wk + 1] = 42
      pk == IF ~dot THEN wk ELSE IF pstar THEN wk + 2 ELSE DigRun(f, wk + 1)
      p == IF ~dot THEN -1 ELSE IF pstar THEN IVal(Head(as1)) ELSE SNum(SubSeq(f, wk + 1, pk - 1))
      as2 == IF pstar THEN Tail(as1) ELSE as1
      c1 == IF pk <= Len(f) THEN f[pk] ELSE 0
      c2 == IF pk + 1 <= Len(f) THEN f[pk + 1] ELSE 0
      lk == IF (c1 = 104 /\ c2 = 104) \/ (c1 = 108 /\ c2 = 108) THEN pk + 2 ELSE IF c1 \in {104, 108, 122, 116} THEN pk + 1 ELSE pk
      bits == IF c1 = 104 THEN (IF c2 = 104 THEN 8 ELSE 16) ELSE IF c1 \in {108, 122, 116} THEN 64 ELSE 32
      conv == IF lk <= Len(f) THEN f[lk] ELSE 0
  IN [d |-> [d1 EXCEPT !.prec = IF p < 0 THEN -1 ELSE p, !.bits = IF conv = 112 THEN 64 ELSE bits, !.conv = conv], k |-> lk + 1, as |-> as2]
RECURSIVE Render(_, _, _, _)
Render(f, k, as, out) ==
  IF k > Len(f) THEN out
  ELSE IF f[k] # 37 THEN Render(f, k + 1, as, Append(out, f[k]))
  ELSE LET r == Directive(f, k + 1, as) d == r.d c == d.conv
           a == IF r.as = <<>> THEN [t |-> "none"] ELSE Head(r.as)
           txt == IF c \in {100, 105, 117, 111, 120, 88, 112} THEN IntText(d, a.v)
                  ELSE IF c = 115 THEN StrText(d, IF a.t = "n" THEN <<40, 110, 117, 108, 108, 41>> ELSE a.b)
                  ELSE IF c = 99 THEN StrText(d, <<a.v[1] % 256>>)
                  ELSE IF c = 114 THEN Rep(a.v[1] % 256, Max2(1, d.width))
                  ELSE IF c = 37 THEN <<37>>
                  ELSE FltText(d, a.v)
       IN Render(f, r.k, IF c = 37 THEN r.as ELSE Tail(r.as), out \o txt)
Printed(f, as) == Render(f, 1, as, <<>>)
IsPrefix2(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
\* what snprintf into n bytes may leave for a text of full length L
Fits(out, ret, full, n) == IF n = 0 THEN out = <<>> /\ ret = -1
                           ELSE /\ Len(out) <= n - 1 /\ IsPrefix2(out, full)
                                /\ IF Len(full) + 1 < n THEN out = full /\ ret = Len(full) + 1
                                   ELSE IF Len(full) + 1 = n THEN out = full /\ ret \in {-1, n} ELSE ret = -1
\* a float that is no small dyadic number: right layout, well formed, within one unit of the last place
RECURSIVE LeadSp(_, _)
LeadSp(s, k) == IF k <= Len(s) /\ s[k] = 32 THEN LeadSp(s, k + 1) ELSE k
RECURSIVE TrailSp(_, _)
TrailSp(s, k) == IF k >= 1 /\ s[k] = 32 THEN TrailSp(s, k - 1) ELSE k
FloatNear(out, f, a) ==
  LET d == Directive(f, 2, <<a>>).d
      p == FPrec(d)
      body == SubSeq(out, LeadSp(out, 1), TrailSp(out, Len(out)))
      neg == body # <<>> /\ body[1] = 45
      b1 == IF neg THEN Tail(body) ELSE body
      ip == DigRun(b1, 1) - 1
      wf == ip >= 1 /\ (IF p = 0 THEN ip = Len(b1) ELSE ip + 1 + p = Len(b1) /\ b1[ip + 1] = 46 /\ DigRun(b1, ip + 2) = Len(b1) + 1)
      digs == SubSeq(b1, 1, ip) \o (IF p = 0 THEN <<>> ELSE SubSeq(b1, ip + 2, Len(b1)))
      exact == LET e == DPow(a.v) n == Pow10(DMant(a.v), p) IN IF e >= 0 THEN Shl(n, e) ELSE ShrBig(n, -e)
  IN /\ wf /\ (neg <=> DSign(a.v))
     /\ BCmp(BDiff(DecVal(digs, <<>>), exact), <<1>>) <= 0
     /\ Len(out) = Max2(d.width, Len(body))
     /\ (Len(body) < d.width => IF d.left THEN out[1] # 32 ELSE out[Len(out)] # 32)
     /\ (Len(b1) > ip + p /\ ip > 1 /\ b1[1] = 48 => d.zero /\ ~d.left /\ Len(body) = d.width)
=============================================================================

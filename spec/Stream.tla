------------------------------- MODULE Stream -------------------------------
(* A memory stream: a byte file with a cursor over a buffer.                                *)
(* kind: "grow" (new or cloned, extends on writes), "fixed" (caller's buffer, never         *)
(* extended), "ro" (caller's buffer, never written), "none".                                *)
EXTENDS Integers, Sequences
VARIABLES buf, cur, kind, orig
svars == <<buf, cur, kind, orig>>
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Slice(s, off, n) == IF off >= Len(s) \/ n <= 0 THEN <<>> ELSE SubSeq(s, off + 1, Min2(Len(s), off + n))
Over(s, off, d) ==   \* s with d written at off, zeros in a gap
  IF d = <<>> THEN s ELSE
  [i \in 1..Max2(Len(s), off + Len(d)) |->
     IF i > off /\ i <= off + Len(d) THEN d[i - off] ELSE IF i <= Len(s) THEN s[i] ELSE 0]
Clamp(x) == Max2(0, Min2(x, Len(buf)))

SInit == buf = <<>> /\ cur = 0 /\ kind = "none" /\ orig = <<>>
SOpen(k, b) == buf' = b /\ cur' = 0 /\ kind' = k /\ orig' = b
\* what a write of d at off stores
Stored(off, d) == IF kind = "grow" THEN d ELSE IF off >= Len(buf) THEN <<>> ELSE SubSeq(d, 1, Min2(Len(d), Len(buf) - off))
SWriteAt(off, d, ok, n) ==
  /\ cur' = cur /\ kind' = kind
  /\ IF kind = "ro" \/ off < 0
     THEN ~ok /\ n = 0 /\ UNCHANGED <<buf, orig>>
     ELSE /\ n = Len(Stored(off, d)) /\ (n = Len(d) => ok)
          /\ buf' = Over(buf, off, Stored(off, d))
          /\ orig' = IF kind = "fixed" THEN buf' ELSE orig
SWrite(d, ok) ==
  /\ kind' = kind
  /\ IF kind = "ro" THEN ~ok /\ UNCHANGED <<buf, cur, orig>>
     ELSE LET w == Stored(cur, d) IN
          /\ (w = d => ok) /\ buf' = Over(buf, cur, w) /\ cur' = cur + Len(w)
          /\ orig' = IF kind = "fixed" THEN buf' ELSE orig
SReadAt(off, n, ok, got) ==
  /\ UNCHANGED svars
  /\ IF off < 0 THEN ~ok /\ got = <<>> ELSE ok /\ got = Slice(buf, off, n)
SRead(n, ok, got) == /\ ok /\ got = Slice(buf, cur, n) /\ cur' = cur + Len(got) /\ UNCHANGED <<buf, kind, orig>>
SSeek(to) == cur' = Clamp(to) /\ UNCHANGED <<buf, kind, orig>>
SClose == buf' = <<>> /\ cur' = 0 /\ kind' = "none" /\ orig' = orig

CursorOK == cur >= 0 /\ cur <= Len(buf)
FixedOK == kind \in {"fixed", "ro"} => buf = orig
=============================================================================

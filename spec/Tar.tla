-------------------------------- MODULE Tar --------------------------------
(* Archives of 512-byte blocks: one header per file, the contents padded with zeros, and    *)
(* an end mark of two zero blocks.  Names, contents and archives are sequences of bytes.    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
B == 512
RECURSIVE Oct(_)
Oct(n) == IF n < 8 THEN <<48 + n>> ELSE Append(Oct(n \div 8), 48 + (n % 8))
Pad(s, n) == s \o [i \in 1..(n - Len(s)) |-> 0]
Up512(n) == ((n + B - 1) \div B) * B
Zeros(n) == [i \in 1..n |-> 0]
Sum(s) == FoldSeq(LAMBDA x, y : x + y, 0, s)
\* the checksum counts its own field as eight spaces
CheckSum(h) == 256 + Sum(SubSeq(h, 1, 148)) + Sum(SubSeq(h, 157, B))
Head0(name, size, type) == Pad(name, 100) \o Pad(Oct(436), 8) \o Zeros(16) \o Pad(Oct(size), 12) \o Pad(<<48>>, 12)
Header(name, size, type) ==
  LET a == Head0(name, size, type)  z == <<type>> \o Zeros(355)  h == a \o Zeros(8) \o z
  IN a \o Pad(Oct(CheckSum(h)), 8) \o z
RECURSIVE Encode(_)
Encode(es) == IF es = <<>> THEN Zeros(2 * B)
              ELSE Header(es[1].name, Len(es[1].data), 48) \o Pad(es[1].data, Up512(Len(es[1].data))) \o Encode(Tail(es))

CStr(s) == LET z == {i \in 1..Len(s) : s[i] = 0} IN IF z = {} THEN s ELSE SubSeq(s, 1, (CHOOSE i \in z : \A j \in z : i <= j) - 1)
OctDigit(c) == c >= 48 /\ c <= 55
RECURSIVE SkipSp(_)
SkipSp(s) == IF s # <<>> /\ s[1] = 32 THEN SkipSp(Tail(s)) ELSE s
RECURSIVE OctVal(_, _)
OctVal(s, v) == IF s = <<>> \/ ~OctDigit(s[1]) THEN v ELSE OctVal(Tail(s), IF v > 100000000 THEN v ELSE v * 8 + s[1] - 48)
Num(f) == LET s == SkipSp(CStr(f)) IN IF s = <<>> \/ ~OctDigit(s[1]) THEN -1 ELSE OctVal(s, 0)
AllZero(h) == \A i \in 1..Len(h) : h[i] = 0

\* reading an archive: the records in order and how the reading ended
\* "end" after the end mark, "sum" at a damaged header, "bad" at a size that is no number, "cut" where bytes are missing
RECURSIVE Walk(_, _)
Walk(a, pos) ==
  IF Len(a) - pos < B THEN [recs |-> <<>>, how |-> "cut"]
  ELSE LET h == SubSeq(a, pos + 1, pos + B) IN
    IF AllZero(SubSeq(h, 1, 149)) /\ AllZero(SubSeq(h, 157, B)) THEN [recs |-> <<>>, how |-> "end"]
    ELSE IF Num(SubSeq(h, 149, 156)) # CheckSum(h) THEN [recs |-> <<>>, how |-> "sum"]
    ELSE LET n == Num(SubSeq(h, 125, 136)) IN
      IF n < 0 THEN [recs |-> <<>>, how |-> "bad"]
      ELSE IF n > Len(a) - pos - B THEN [recs |-> <<>>, how |-> "cut"]
      ELSE LET rest == Walk(a, pos + B + Up512(n))
               r == [path |-> CStr(SubSeq(h, 1, 100)), off |-> pos + B, len |-> n, type |-> h[157]]
           IN [recs |-> <<r>> \o rest.recs, how |-> rest.how]
Data(a, r) == SubSeq(a, r.off + 1, r.off + r.len)

\* ---- the directory target: a tree of nodes [p, t, c] as in Fs, paths are sequences of names
RECURSIVE Split(_)
Split(s) == LET k == {i \in 1..Len(s) : s[i] = 47} IN
            IF k = {} THEN <<s>> ELSE LET i == CHOOSE i \in k : \A j \in k : i <= j IN <<SubSeq(s, 1, i - 1)>> \o Split(SubSeq(s, i + 1, Len(s)))
Dot == <<46>>  DotDot == <<46, 46>>
Plain(cs) == SelectSeq(cs, LAMBDA c : c # <<>> /\ c # Dot)
Hostile(name) == \E c \in Range(Split(name)) : c = DotDot
NoName(name) == LET cs == Split(name) IN cs[Len(cs)] \in {<<>>, Dot}
HasFile(t, p) == \E n \in t : n.p = p /\ n.t = "f"
HasDir(t, p) == p = <<>> \/ \E n \in t : n.p = p /\ n.t = "d"
Has(t, p) == HasFile(t, p) \/ HasDir(t, p)
MkdirR(t, p) == t \cup {[p |-> q, t |-> "d", c |-> <<>>] : q \in {SubSeq(p, 1, k) : k \in {k \in 1..Len(p) : (\A j \in 1..k : ~HasFile(t, SubSeq(p, 1, j))) /\ ~Has(t, SubSeq(p, 1, k))}}}
\* putting one record below dest: the tree after it, and whether it worked
PutFile(t, dest, name, c) ==
  LET p == dest \o Plain(Split(name))  up == SubSeq(p, 1, Len(p) - 1) IN
  IF NoName(name) THEN [t |-> MkdirR(t, p), ok |-> FALSE]
  ELSE LET t2 == MkdirR(t, up) IN
       IF HasDir(t2, up) /\ ~HasDir(t2, p) THEN [t |-> {n \in t2 : n.p # p} \cup {[p |-> p, t |-> "f", c |-> c]}, ok |-> TRUE]
       ELSE [t |-> t2, ok |-> FALSE]
RECURSIVE PutAll(_, _, _, _)
PutAll(t, dest, a, recs) ==
  IF recs = <<>> THEN [t |-> t, ok |-> TRUE]
  ELSE IF recs[1].type # 48 \/ Hostile(recs[1].path) THEN PutAll(t, dest, a, Tail(recs))
  ELSE LET s == PutFile(t, dest, recs[1].path, Data(a, recs[1])) IN
       IF s.ok THEN PutAll(s.t, dest, a, Tail(recs)) ELSE s
\* everything outside dest is as before
Outside(t, t2, dest) == {n \in t : SubSeq(n.p, 1, Len(dest)) # dest} = {n \in t2 : SubSeq(n.p, 1, Len(dest)) # dest /\ n.p # SubSeq(dest, 1, Len(n.p))} 
=============================================================================

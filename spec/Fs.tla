--------------------------------- MODULE Fs ---------------------------------
(* A tree of files and directories; tree is a set of nodes [p, t, c]: path (sequence of     *)
(* names, <<>> is the root and not listed), "d" or "f", contents.                           *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLE tree
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Up(p) == SubSeq(p, 1, Len(p) - 1)
Node(p) == CHOOSE n \in tree : n.p = p
Has(p) == p = <<>> \/ \E n \in tree : n.p = p
Dir(p) == p = <<>> \/ \E n \in tree : n.p = p /\ n.t = "d"
File(p) == \E n \in tree : n.p = p /\ n.t = "f"
Kids(p) == {n \in tree : Len(n.p) = Len(p) + 1 /\ IsPrefix(p, n.p)}
Under(p) == {n \in tree : Len(n.p) > Len(p) /\ IsPrefix(p, n.p)}
D(p) == [p |-> p, t |-> "d", c |-> <<>>]
F(p, c) == [p |-> p, t |-> "f", c |-> c]
Content(p) == Node(p).c
CanCreate(p) == p # <<>> /\ Dir(Up(p)) /\ ~Has(p)
Same == tree' = tree
TreeOK == /\ \A n \in tree : Dir(Up(n.p)) /\ (n.t = "d" => n.c = <<>>)
          /\ \A m, n \in tree : m.p = n.p => m = n

FInit == tree = {}
FWrite(p, c) == /\ (File(p) \/ CanCreate(p)) /\ tree' = {n \in tree : n.p # p} \cup {F(p, c)}
\* err: 0 done, 3 already there, anything else for the remaining failures
FMkdir(p, err) == IF CanCreate(p) THEN err = 0 /\ tree' = tree \cup {D(p)}
                  ELSE Same /\ (IF Has(p) THEN err = 3 ELSE err # 0)
Prefixes(p) == {SubSeq(p, 1, k) : k \in 1..Len(p)}
FMkdirR(p, ok) ==   \* every directory on the way; stops at a file
  /\ ok = (\A q \in Prefixes(p) : ~File(q))
  /\ tree' = tree \cup {D(q) : q \in {q \in Prefixes(p) : ~Has(q) /\ \A r \in Prefixes(q) : ~File(r)}}
FRmdir(p, err) == IF Dir(p) /\ Kids(p) = {} THEN err = 0 /\ tree' = tree \ {D(p)}
                  ELSE Same /\ (IF Dir(p) THEN err = 7 ELSE IF File(p) \/ \E q \in Prefixes(p) : File(q) THEN err # 0 ELSE err = 4)
FRemove(p, ok) == /\ ok = (File(p) \/ (p # <<>> /\ Dir(p) /\ Kids(p) = {}))
                  /\ tree' = IF ok THEN {n \in tree : n.p # p} ELSE tree
\* excl: fail if the target exists
CanCopy(s, d, excl) == File(s) /\ d # s /\ (IF Has(d) THEN File(d) /\ ~excl ELSE CanCreate(d))
FCopy(s, d, excl, lim, ok) ==
  IF ~CanCopy(s, d, excl) THEN ~ok /\ Same
  ELSE IF lim >= 0 /\ Len(Content(s)) > lim
  THEN ~ok /\ \/ Same \/ \E k \in 0..Len(Content(s)) : tree' = {n \in tree : n.p # d} \cup {F(d, SubSeq(Content(s), 1, k))}
  ELSE ok /\ tree' = {n \in tree : n.p # d} \cup {F(d, Content(s))}
Moved(s, d, n) == IF n.p = s \/ IsPrefix(s, n.p) THEN [n EXCEPT !.p = d \o SubSeq(n.p, Len(s) + 1, Len(n.p))] ELSE n
\* moving a directory may be refused (it is where links stand in for renames)
FMove(s, d, ok) ==
  LET can == s # <<>> /\ Has(s) /\ CanCreate(d) /\ ~IsPrefix(s, d) IN
  /\ IF ok THEN can /\ tree' = {Moved(s, d, n) : n \in tree} ELSE Same /\ (can => Dir(s))
FExists(p, r) == Same /\ r = Has(p)
FType(p, r) == Same /\ r = (IF File(p) THEN 0 ELSE IF Dir(p) THEN 1 ELSE 2)
\* a listing names every entry once
FList(p, rec, items) ==
  LET want == IF ~Dir(p) THEN {} ELSE {n.p : n \in IF rec THEN Under(p) ELSE Kids(p)} IN
  Same /\ {items[i] : i \in 1..Len(items)} = want /\ Len(items) = Cardinality(want)
TypeNum(p) == IF File(p) THEN 0 ELSE 1
FInfo(p, ents) ==
  /\ Same /\ {ents[i].p : i \in 1..Len(ents)} = (IF Dir(p) THEN {n.p : n \in Kids(p)} ELSE {}) /\ Len(ents) = (IF Dir(p) THEN Cardinality(Kids(p)) ELSE 0)
  /\ \A i \in 1..Len(ents) : ents[i].t = TypeNum(ents[i].p)
       \* stepping into a folder lists it, stepping into a file lists the folder it is in
       /\ LET sub == IF ents[i].t = 1 THEN ents[i].p ELSE Up(ents[i].p)  got == ents[i].sub IN
          {got[k] : k \in 1..Len(got)} = {n.p : n \in Kids(sub)} /\ Len(got) = Cardinality(Kids(sub))
\* changed since the last look; the first look compares with "never"
RECURSIVE Looks(_, _)
Looks(prev, ts) == IF ts = <<>> THEN <<>> ELSE <<ts[1] # prev, FALSE>> \o Looks(ts[1], Tail(ts))

\* path texts
LastAt(s, c) == IF \E i \in 1..Len(s) : s[i] = c THEN CHOOSE i \in 1..Len(s) : s[i] = c /\ \A j \in (i + 1)..Len(s) : s[j] # c ELSE 0
BaseName(s) == SubSeq(s, LastAt(s, 47) + 1, Len(s))
HasExt(s) == LastAt(BaseName(s), 46) # 0
Ext(s) == LET b == BaseName(s) IN SubSeq(b, LastAt(b, 46) + 1, Len(b))
IsAbs(s) == s # <<>> /\ s[1] = 47
IsRoot(s) == s = <<47>>
=============================================================================

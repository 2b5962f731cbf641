--------------------------------- MODULE Adt ---------------------------------
(* The document tree.  A node is [t |-> type, n |-> name, v |-> number, s |-> text, c |-> children]; absent names and texts are None.
   Reals are kept in eighths.  A place is a path: the sequence of child indexes (from 0) that leads to it. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
UNINIT == 0  ARR == 1  OBJ == 2  STR == 3  MULTI == 4  INTEGER == 5  REAL == 6
None == <<-1>>
Empty == [t |-> UNINIT, n |-> None, v |-> 0, s |-> None, c |-> <<>>]
Branch(k, name) == [Empty EXCEPT !.t = k, !.n = name]
Leaf(k, name, v, s) == [Empty EXCEPT !.t = k, !.n = name, !.v = v, !.s = s]
Container(x) == x.t \in {ARR, OBJ}
InsAt(s, i, e) == SubSeq(s, 1, i) \o <<e>> \o SubSeq(s, i + 1, Len(s))
DelAt(s, i) == SubSeq(s, 1, i) \o SubSeq(s, i + 2, Len(s))
RECURSIVE Has(_, _), Get(_, _), Put(_, _, _), Places(_), Size(_), Find1(_, _)
Has(x, p) == p = <<>> \/ (p[1] < Len(x.c) /\ p[1] >= 0 /\ Has(x.c[p[1] + 1], Tail(p)))
Get(x, p) == IF p = <<>> THEN x ELSE Get(x.c[p[1] + 1], Tail(p))
Put(x, p, y) == IF p = <<>> THEN y ELSE [x EXCEPT !.c[p[1] + 1] = Put(@, Tail(p), y)]
Places(x) == {<<>>} \union UNION {{<<k - 1>> \o p : p \in Places(x.c[k])} : k \in 1..Len(x.c)}
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Size(Head(s)) + Sum(Tail(s))
Size(x) == 1 + Sum(x.c)
Front(p) == SubSeq(p, 1, Len(p) - 1)
Back(p) == p[Len(p)]
Within(p, q) == Len(p) >= Len(q) /\ SubSeq(p, 1, Len(q)) = q           \* p is q or below it
Insert(x, p, i, y) == LET d == Get(x, p) IN Put(x, p, [d EXCEPT !.c = InsAt(@, i, y)])
Remove(x, p) == LET d == Get(x, Front(p)) IN Put(x, Front(p), [d EXCEPT !.c = DelAt(@, Back(p))])
\* a node of marker type k, wherever it is
Find1(x, k) == IF x.t = k THEN <<<<>>>>
               ELSE LET h == {j \in 1..Len(x.c) : Find1(x.c[j], k) # <<>>} IN IF h = {} THEN <<>> ELSE LET j == CHOOSE j \in h : TRUE IN <<<<j - 1>> \o Find1(x.c[j], k)[1]>>
Gone == 98
Come == 99
\* move: the index counts places before the node is taken out
Move(x, src, dst, i) ==
    LET y == Get(x, src)
        a == Put(x, src, [Empty EXCEPT !.t = Gone])
        b == TLCEval(Insert(a, dst, i, [Empty EXCEPT !.t = Come]))
        d == TLCEval(Remove(b, Find1(b, Gone)[1]))
        at == Find1(d, Come)[1]
    IN [x |-> Put(d, at, y), at |-> at]
Swap(x, p, q) == LET a == Get(x, p) b == Get(x, q) IN Put(Put(x, p, b), q, a)
------------------------------------------------------------------------------
Fail == <<-2>>
\* the first child index (from 0) that satisfies a test, -1: none
FirstIdx(s, T(_)) == LET h == {k \in 1..Len(s) : T(s[k])} IN IF h = {} THEN -1 ELSE (CHOOSE k \in h : \A j \in h : k <= j) - 1
RECURSIVE Lookup(_, _, _), LookDeep(_, _, _)
\* by name: own fields first, then (deep) the fields of the fields, in order
Lookup(x, name, deep) ==
    IF x.t # OBJ THEN Fail
    ELSE LET k == FirstIdx(x.c, LAMBDA y : y.n = name) IN
         IF k >= 0 THEN <<k>> ELSE IF deep THEN LookDeep(x, name, 1) ELSE Fail
LookDeep(x, name, k) == IF k > Len(x.c) THEN Fail
                        ELSE LET r == Lookup(x.c[k], name, TRUE) IN IF r # Fail THEN <<k - 1>> \o r ELSE LookDeep(x, name, k + 1)
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
Sign(n, t) == IF n < 0 THEN <<45>> \o t ELSE t
Ab(n) == IF n < 0 THEN -n ELSE n
\* printed number: an integer in decimal, a real with six places
Shown(x) == IF x.t = INTEGER THEN Sign(x.v, Dec(Ab(x.v)))
            ELSE IF x.v = 0 THEN <<48>>
            ELSE LET f == (Ab(x.v) % 8) * 125 IN Sign(x.v, Dec(Ab(x.v) \div 8) \o <<46, 48 + f \div 100, 48 + ((f \div 10) % 10), 48 + (f % 10), 48, 48, 48>>)
Holds(x, val) == CASE x.t \in {STR, MULTI} -> x.s = val [] x.t \in {INTEGER, REAL} -> Shown(x) = val [] OTHER -> FALSE
HasField(x, f, val) == \E k \in 1..Len(x.c) : x.c[k].n = f /\ Holds(x.c[k], val)
IndexOf(s, ch) == LET h == {k \in 1..Len(s) : s[k] = ch} IN IF h = {} THEN Len(s) + 1 ELSE CHOOSE k \in h : \A j \in h : k <= j
Number(s) == s # <<>> /\ Len(s) <= 8 /\ \A k \in 1..Len(s) : s[k] \in 48..57
RECURSIVE Nat10(_)
Nat10(s) == IF s = <<>> THEN 0 ELSE Nat10(SubSeq(s, 1, Len(s) - 1)) * 10 + s[Len(s)] - 48
RECURSIVE Query(_, _)
\* one step: the place a segment names below x
Segment(x, g) ==
    IF g # <<>> /\ g[1] = 91 THEN
        LET body == SubSeq(g, 2, IndexOf(g, 93) - 1) eq == IndexOf(body, 61)
            f == SubSeq(body, 1, eq - 1) val == SubSeq(body, eq + 1, Len(body)) IN
        IF eq <= Len(body) THEN
            (IF x.t = OBJ THEN (IF HasField(x, f, val) THEN <<>> ELSE Fail)
             ELSE LET k == FirstIdx(x.c, LAMBDA y : y.t = OBJ /\ HasField(y, f, val)) IN IF k >= 0 THEN <<k>> ELSE Fail)
        ELSE IF x.t = OBJ THEN Fail
        ELSE LET k == FirstIdx(x.c, LAMBDA y : Holds(y, body)) IN IF k >= 0 THEN <<k>> ELSE Fail
    ELSE IF x.t = OBJ THEN Lookup(x, g, FALSE)
    ELSE IF Number(g) /\ Nat10(g) < Len(x.c) THEN <<Nat10(g)>> ELSE Fail
Query(x, uri) ==
    LET u == IF uri # <<>> /\ uri[1] = 47 THEN Tail(uri) ELSE uri IN
    IF u = <<>> THEN <<>>
    ELSE IF ~Container(x) THEN Fail
    ELSE LET e == IndexOf(u, 47) r == Segment(x, SubSeq(u, 1, e - 1)) IN
         IF r = Fail THEN Fail
         ELSE IF e > Len(u) THEN r
         ELSE LET q == Query(Get(x, r), SubSeq(u, e + 1, Len(u))) IN IF q = Fail THEN Fail ELSE r \o q
=============================================================================

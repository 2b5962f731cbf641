-------------------------------- MODULE Oom --------------------------------
(* Memory that may run out: arrays, strings, growing memory streams and document trees, and what their operations leave behind when an allocation is refused.        *)
(* A world holds six objects; an operation names its target, what it would make of it, and which requests it puts to the allocator. It either happens as a whole,    *)
(* or it reports failure and nothing at all has changed: no object, no number of live blocks.                                                                     *)
EXTENDS Integers, Sequences, FiniteSets
N == 6
NoTree == [t |-> "nil", n |-> -1, x |-> 0, c |-> <<>>]
None == [k |-> "none", v |-> <<>>, c |-> 0, t |-> NoTree]
World0 == [i \in 1..N |-> None]
Arr(s) == [None EXCEPT !.k = "arr", !.v = s]
Str(s) == [None EXCEPT !.k = "str", !.v = s]
Stm(s, c) == [None EXCEPT !.k = "stm", !.v = s, !.c = c]
Tree(t) == [None EXCEPT !.k = "tree", !.t = t]
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Insert(s, at, d) == SubSeq(s, 1, at) \o d \o SubSeq(s, at + 1, Len(s))
Drop(s, at) == SubSeq(s, 1, at) \o SubSeq(s, at + 2, Len(s))   \* places count from 0
Over(s, off, d) == IF d = <<>> THEN s ELSE [i \in 1..Max2(Len(s), off + Len(d)) |-> IF i > off /\ i <= off + Len(d) THEN d[i - off] ELSE IF i <= Len(s) THEN s[i] ELSE 0]
RECURSIVE Glue(_, _)
Glue(ps, g) == IF ps = <<>> THEN <<>> ELSE IF Len(ps) = 1 THEN ps[1] ELSE ps[1] \o g \o Glue(Tail(ps), g)
Leaf(k, n, x) == [t |-> k, n |-> n, x |-> x, c |-> <<>>]
IsBranch(t) == t.t \in {"obj", "arr"}
RECURSIVE At(_, _)
At(t, p) == IF p = <<>> THEN t ELSE At(t.c[p[1] + 1], Tail(p))
RECURSIVE Put(_, _, _)
Put(t, p, u) == IF p = <<>> THEN u ELSE [t EXCEPT !.c[p[1] + 1] = Put(@, Tail(p), u)]
InsertAt(t, p, at, u) == LET b == At(t, p) IN Put(t, p, [b EXCEPT !.c = Insert(@, at, <<u>>)])
Front(p) == SubSeq(p, 1, Len(p) - 1)
RemoveAt(t, p) == LET b == At(t, Front(p)) IN Put(t, Front(p), [b EXCEPT !.c = Drop(@, p[Len(p)])])
\* the place of a node once another node was put into container q at place at
Shifted(p, q, at) == IF Len(p) > Len(q) /\ SubSeq(p, 1, Len(q)) = q /\ at <= p[Len(q) + 1] THEN [p EXCEPT ![Len(q) + 1] = @ + 1] ELSE p
Move(t, p, q, at) == RemoveAt(InsertAt(t, q, at, At(t, p)), Shifted(p, q, at))

\* what each operation makes of the object it names
Made(w, e) ==
  LET o == w[e.i + 1] IN
  CASE e.op \in {"arr.new", "arr.newcap"} -> Arr(<<>>)
    [] e.op = "arr.append" -> Arr(Append(o.v, e.x))
    [] e.op = "arr.appendat" -> Arr(Insert(o.v, e.at, <<e.x>>))
    [] e.op = "arr.appendv" -> Arr(o.v \o e.d)
    [] e.op = "arr.appendvat" -> Arr(Insert(o.v, e.at, e.d))
    [] e.op = "arr.cap" -> Arr(SubSeq(o.v, 1, Min2(e.x, Len(o.v))))
    [] e.op \in {"arr.grow", "arr.reserve"} -> o
    [] e.op = "arr.resize" -> Arr(IF e.x <= Len(o.v) THEN SubSeq(o.v, 1, e.x) ELSE o.v \o [j \in 1..(e.x - Len(o.v)) |-> 0])
    [] e.op \in {"arr.copy", "str.dup"} -> w[e.j + 1]
    [] e.op \in {"str.new", "str.len", "str.printf"} -> Str(e.d)
    [] e.op = "str.reserve" -> Str(<<>>)
    [] e.op \in {"str.append", "str.appendc", "str.fmt", "str.rune"} -> Str(o.v \o e.d)
    [] e.op = "str.add" -> Str(o.v \o w[e.j + 1].v)
    [] e.op = "str.set" -> Str(e.d)
    [] e.op = "str.space" -> o
    [] e.op = "str.join" -> Str(Glue(e.ps, e.d))
    [] e.op = "stm.new" -> Stm(<<>>, 0)
    [] e.op = "stm.open" -> Stm(e.d, 0)
    [] e.op \in {"stm.write", "stm.print"} -> Stm(Over(o.v, o.c, e.d), o.c + Len(e.d))
    [] e.op = "stm.writeat" -> Stm(Over(o.v, e.at, e.d), o.c)
    [] e.op = "stm.seek" -> Stm(o.v, Max2(0, Min2(e.at, Len(o.v))))
    [] e.op = "tree.new" -> Tree(Leaf(e.kind, e.n, 0))
    [] e.op = "tree.app" -> Tree(InsertAt(o.t, e.p, Len(At(o.t, e.p).c), Leaf(e.kind, e.n, e.x)))
    [] e.op = "tree.at" -> Tree(InsertAt(o.t, e.p, e.at, NoTree))
    [] e.op = "tree.set" -> Tree(Put(o.t, e.p, Leaf(e.kind, e.n, e.x)))
    [] e.op = "tree.move" -> Tree(Move(o.t, e.p, e.q, e.at))
    [] e.op = "tree.remove" -> Tree(RemoveAt(o.t, e.p))
    [] e.op = "free" -> None

\* An operation seen from outside: `ok` its result, `den` how many of its requests were refused, `w2` and `live2` what is there afterwards.
Outcome(w, live, e, ok, den, w2, live2) ==
  IF ok THEN w2 = [w EXCEPT ![e.i + 1] = Made(w, e)]
  ELSE den > 0 /\ w2 = w /\ live2 = live
\* A call that keeps nothing (parsing and writing, whole-file reads, encoders), compared with the same call while there was memory enough:
\* the same result, or a failure that a refused request explains, by the result it documents; either way every block has been given back.
Whole(ok, refok, same, doc, den, left) == left = 0 /\ (IF ok = refok THEN same ELSE refok /\ ~ok /\ den > 0 /\ doc)
=============================================================================

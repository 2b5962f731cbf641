------------------------------ MODULE Atomics ------------------------------
(* One atomic cell as its users see it.  A value is a sequence of 16-bit limbs, least significant first.  *)
(* Calls overlap: a call takes effect in one indivisible step somewhere between its start and its return, *)
(* and which step order happened is not observable directly, so the specification carries the set of all  *)
(* orders still possible: [v |-> cell value, got |-> the results of calls that have taken effect but not  *)
(* returned].  A history is right exactly while that set is not empty.                                    *)
EXTENDS Integers, Sequences, FiniteSets, Bitwise, TLC
VARIABLES poss, pend, holder
avars == <<poss, pend, holder>>
Limb == 65536
RECURSIVE AddFrom(_, _, _, _)
AddFrom(x, y, i, c) == IF i > Len(x) THEN <<>> ELSE LET s == x[i] + y[i] + c IN <<s % Limb>> \o AddFrom(x, y, i + 1, s \div Limb)
Plus(x, y) == AddFrom(x, y, 1, 0)
Zero(n) == [i \in 1..n |-> 0]
One(n) == [i \in 1..n |-> IF i = 1 THEN 1 ELSE 0]
\* <<the cell afterwards, the call's result>>
Do(f, v, a, b) ==
  CASE f = "l" -> <<v, v>>
    [] f = "s" -> <<a, <<>>>>
    [] f = "x" -> <<a, v>>
    [] f = "c" -> <<IF v = a THEN b ELSE v, v>>
    [] f = "+" -> <<Plus(v, a), v>>
    [] f = "&" -> <<[i \in 1..Len(v) |-> v[i] & a[i]], v>>
    [] f = "|" -> <<[i \in 1..Len(v) |-> v[i] | a[i]], v>>
    [] f = "t" -> <<IF v = Zero(Len(v)) THEN One(Len(v)) ELSE v, IF v = Zero(Len(v)) THEN One(Len(v)) ELSE Zero(Len(v))>>   \* take the lock if it is free
    [] f = "u" -> <<Zero(Len(v)), <<>>>>
None == <<>>
Fresh(v) == poss = {[v |-> v, got |-> <<>>]} /\ pend = <<>> /\ holder = 0
Cell(v) == poss' = {[v |-> v, got |-> <<>>]} /\ pend' = <<>> /\ holder' = 0
\* all states reachable when any of the pending calls take effect
Took(s) == {t \in DOMAIN pend : t \in DOMAIN s.got}
Effect(s, t) == LET d == Do(pend[t].f, s.v, pend[t].a, pend[t].b) IN [v |-> d[1], got |-> (t :> d[2]) @@ s.got]
RECURSIVE Close(_, _)
Close(done, new) == IF new = {} THEN done
  ELSE LET nx == UNION {{Effect(s, t) : t \in (DOMAIN pend) \ DOMAIN s.got} : s \in new} IN Close(done \cup new, nx \ (done \cup new))
Call(t, f, a, b) == t \notin DOMAIN pend /\ pend' = (t :> [f |-> f, a |-> a, b |-> b]) @@ pend /\ UNCHANGED <<poss, holder>>
Drop(g, t) == [x \in DOMAIN g \ {t} |-> g[x]]
\* a call that returns its result
Return(t, r) ==
  /\ t \in DOMAIN pend
  /\ LET all == TLCEval(Close({}, poss)) IN
     poss' = {[v |-> s.v, got |-> Drop(s.got, t)] : s \in {s \in all : t \in DOMAIN s.got /\ s.got[t] = (IF pend[t].f \in {"s", "u"} THEN <<>> ELSE r)}}
  /\ poss' # {} /\ pend' = Drop(pend, t) /\ UNCHANGED holder
\* nobody is in a call and the cell holds v
Rest(v) == DOMAIN pend = {} /\ \E s \in poss : s.v = v /\ UNCHANGED avars
\* a single undisturbed call
Alone(f, a, b, r, v) == DOMAIN pend = {} /\ \E s \in poss : LET d == Do(f, s.v, a, b) IN (f \in {"s", "u"} \/ d[2] = r) /\ v = d[1] /\ poss' = {[v |-> v, got |-> <<>>]} /\ UNCHANGED <<pend, holder>>
\* many threads, many calls each, all of one kind: what must come out in total.
\*   "+"/"c": every one of n*c calls adds a exactly once         "x": what was put in comes out, apart from what is left inside
\*   "|": a bit only its owner sets and clears is never found set  "L": only the holder touches the plain counter
RECURSIVE Times(_, _)
Times(k, v) == IF k = 0 THEN Zero(Len(v)) ELSE LET h == TLCEval(Times(k \div 2, v)) d == Plus(h, h) IN IF k % 2 = 1 THEN Plus(d, v) ELSE d
SumTo(k, n) == IF k % 2 = 0 THEN Times(k \div 2, Times(k + 1, One(n))) ELSE Times(k, Times((k + 1) \div 2, One(n)))
Total(k, n, c, a, v0, v, s, h, plain) ==
  LET w == Len(v0) m == n * c IN
  CASE k \in {"+", "c"} -> /\ v = Plus(v0, Times(m, a))
                           \* the results were v0, v0+a, v0+2a, ... each once
                           /\ s = Plus(Times(m, v0), IF m % 2 = 0 THEN Times(m \div 2, Times(m - 1, a)) ELSE Times((m - 1) \div 2, Times(m, a)))
    [] k = "x" -> Plus(s, v) = Plus(v0, SumTo(m, w))
    [] k = "|" -> v = v0 /\ h = 0
    [] k = "L" -> s = Zero(Len(s)) /\ h = m /\ plain = m /\ v = Zero(w)
    [] k = "T" -> h = plain /\ h <= m /\ v = Zero(w)
=============================================================================

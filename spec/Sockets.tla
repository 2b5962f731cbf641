------------------------------ MODULE Sockets ------------------------------
(* Sockets over the loopback interface as their user sees them.  The world w is                                   *)
(*   h[i]: the handle i: [k: "no" | "tcp" (bound) | "str" (one end of a connection) | "udp", port, nb, lis, cap, pend, c, side, peer, q, err] *)
(*   c: the connections: [q: bytes under way to side 1 / side 2, gone: side closed, rst: the connection was cut, pt: the two ports] *)
(* Ports are tokens, 0 is none.  Every operation is <<it may have given this result, the world afterwards>>.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
IDs == 0..9
None == [k |-> "no", port |-> 0, nb |-> FALSE, lis |-> FALSE, cap |-> 0, pend |-> <<>>, c |-> 0, side |-> 0, peer |-> 0, q |-> <<>>, err |-> FALSE]
World0 == [h |-> [i \in IDs |-> None], c |-> <<>>]
Open(w) == {i \in IDs : w.h[i].k # "no"}
MinOf(x, y) == IF x < y THEN x ELSE y
Front(s, n) == SubSeq(s, 1, MinOf(n, Len(s)))
Rest(s, n) == SubSeq(s, n + 1, Len(s))
With(w, i, r) == [w EXCEPT !.h[i] = r]
Bound(w, k, p) == {i \in Open(w) : w.h[i].k = k /\ w.h[i].port = p}
\* ---- making sockets
Bind(w, i, k, nb, to, ok, mine) ==
  LET taken == to # 0 /\ Bound(w, k, to) # {} IN
  << /\ w.h[i].k = "no"
     /\ (taken => ~ok) /\ (to = 0 => ok)
     /\ (ok => mine # 0 /\ (to # 0 => mine = to) /\ Bound(w, k, mine) = {}),
     IF ok THEN With(w, i, [None EXCEPT !.k = k, !.port = mine, !.nb = nb]) ELSE w >>
Listeners(w, p) == {i \in Bound(w, "tcp", p) : w.h[i].lis}
Connect(w, i, nb, to, ok, mine) ==
  LET L == Listeners(w, to) n == Len(w.c) + 1 IN
  IF L = {} THEN << w.h[i].k = "no" /\ (ok => nb), IF ok THEN [With(w, i, [None EXCEPT !.k = "str", !.port = mine, !.nb = nb, !.c = n, !.side = 2]) EXCEPT !.c = Append(@, [q |-> <<<<>>, <<>>>>, gone |-> <<TRUE, FALSE>>, rst |-> TRUE, pt |-> <<to, mine>>])] ELSE w >>
  ELSE LET l == CHOOSE j \in L : TRUE IN
       << w.h[i].k = "no" /\ (Len(w.h[l].pend) < w.h[l].cap => ok) /\ (ok => mine # 0),
          IF ok THEN LET w1 == With(w, i, [None EXCEPT !.k = "str", !.port = mine, !.nb = nb, !.c = n, !.side = 2]) IN
                     [w1 EXCEPT !.h[l].pend = Append(@, n), !.c = Append(@, [q |-> <<<<>>, <<>>>>, gone |-> <<FALSE, FALSE>>, rst |-> FALSE, pt |-> <<to, mine>>])]
          ELSE w >>
UdpConnect(w, i, nb, to, ok, mine) == << w.h[i].k = "no" /\ ok /\ mine # 0, With(w, i, [None EXCEPT !.k = "udp", !.port = mine, !.nb = nb, !.peer = to]) >>
Create(w, i, proto, mode, nb, to, ok, mine) ==
  CASE mode = "bind" -> Bind(w, i, proto, nb, to, ok, mine)
    [] mode = "connect" /\ proto = "tcp" -> Connect(w, i, nb, to, ok, mine)
    [] mode = "connect" /\ proto = "udp" -> UdpConnect(w, i, nb, to, ok, mine)
Listen(w, i, n, r) == IF w.h[i].k = "tcp" THEN << r = 0, [w EXCEPT !.h[i].lis = TRUE, !.h[i].cap = n] >> ELSE << r # 0, w >>
\* from: the client's port, -1 when the address was not asked for
Accept(w, i, j, ok, from) ==
  LET x == w.h[i] IN
  IF x.k # "tcp" \/ ~x.lis \/ x.pend = <<>> THEN << ~ok, w >>
  ELSE LET c == Head(x.pend) IN << ok /\ w.h[j].k = "no" /\ from \in {-1, w.c[c].pt[2]},
         [With(w, j, [None EXCEPT !.k = "str", !.port = x.port, !.c = c, !.side = 1]) EXCEPT !.h[i].pend = Tail(@)] >>
Address(w, i, r, mine) == << w.h[i].k # "no" /\ r = 0 /\ mine = w.h[i].port, w >>
\* ---- connections
Me(x) == x.side
You(x) == 3 - x.side
SendS(w, i, d, r) ==
  LET x == w.h[i] c == w.c[x.c] IN
  IF c.gone[You(x)] \/ c.rst THEN << r = -1 \/ (0 <= r /\ r <= Len(d)), [w EXCEPT !.c[x.c].rst = TRUE] >>
  ELSE << r <= Len(d) /\ (IF d = <<>> THEN r = 0 ELSE r > 0), IF 0 < r /\ r <= Len(d) THEN [w EXCEPT !.c[x.c].q[You(x)] = @ \o SubSeq(d, 1, r)] ELSE w >>
RecvS(w, i, n, r, d) ==
  LET x == w.h[i] c == w.c[x.c] q == c.q[Me(x)] IN
  CASE r > 0 -> << r <= n /\ r <= Len(q) /\ d = SubSeq(q, 1, r), IF r <= Len(q) THEN [w EXCEPT !.c[x.c].q[Me(x)] = Rest(q, r)] ELSE w >>
    [] r = 0 -> << c.rst \/ (c.gone[You(x)] /\ q = <<>>), w >>
    [] OTHER -> << r = -1 /\ (c.rst \/ (x.nb /\ q = <<>> /\ ~c.gone[You(x)])), w >>
\* ---- datagrams: <<bytes, sender's port>>
SendU(w, i, to, d, r) ==
  LET x == w.h[i] T == {j \in Bound(w, "udp", to) : w.h[j].peer \in {0, x.port}} IN
  IF x.k # "udp" \/ to = 0 THEN << r = -1, w >>
  ELSE IF r = -1 THEN << x.err, [w EXCEPT !.h[i].err = FALSE] >>
  ELSE << r = Len(d), IF T = {} THEN [w EXCEPT !.h[i].err = TRUE] ELSE [w EXCEPT !.h = [j \in IDs |-> IF j \in T THEN [w.h[j] EXCEPT !.q = Append(@, <<d, x.port>>)] ELSE w.h[j]]] >>
RecvU(w, i, n, r, d, from) ==
  LET x == w.h[i] IN
  IF r = -1 THEN << x.err \/ (x.nb /\ x.q = <<>>), [w EXCEPT !.h[i].err = FALSE] >>
  ELSE IF x.q = <<>> THEN << FALSE, w >>
  ELSE LET m == Head(x.q) IN << r = MinOf(n, Len(m[1])) /\ d = Front(m[1], n) /\ from \in {-1, m[2]}, [w EXCEPT !.h[i].q = Tail(@)] >>
Send(w, i, d, r) == CASE w.h[i].k = "str" -> SendS(w, i, d, r) [] w.h[i].k = "udp" -> SendU(w, i, w.h[i].peer, d, r) [] OTHER -> << r = -1, w >>
Recv(w, i, n, r, d) == CASE w.h[i].k = "str" -> RecvS(w, i, n, r, d) [] w.h[i].k = "udp" -> RecvU(w, i, n, r, d, -1) [] OTHER -> << r = -1, w >>
\* ---- readiness
Sure(w, i) == i = -1 \/ CASE w.h[i].k = "str" -> ~w.c[w.h[i].c].rst [] w.h[i].k = "tcp" -> w.h[i].lis [] w.h[i].k = "udp" -> ~w.h[i].err [] OTHER -> FALSE
Ready(w, i) == i # -1 /\ CASE w.h[i].k = "str" -> LET c == w.c[w.h[i].c] IN c.q[Me(w.h[i])] # <<>> \/ c.gone[You(w.h[i])] [] w.h[i].k = "tcp" -> w.h[i].pend # <<>> [] w.h[i].k = "udp" -> w.h[i].q # <<>> [] OTHER -> FALSE
\* S: sequence of handles; no more than are ready are counted; nothing ready: 0, and not before the time has passed (what is under way has arrived within a second)
Select(w, S, ms, r, el) ==
  LET R == {S[k] : k \in {k \in DOMAIN S : Ready(w, S[k])}} U == {S[k] : k \in {k \in DOMAIN S : ~Sure(w, S[k])}} IN
  << r \in 0..Cardinality(R \cup U) /\ (R \ U # {} /\ ms >= 1000 => r >= 1) /\ (r = 0 => el + 2 >= ms), w >>
\* ---- the end
CloseS(w, i) ==
  LET x == w.h[i] c == w.c[x.c] w1 == [w EXCEPT !.c[x.c].gone[Me(x)] = TRUE] IN IF c.q[Me(x)] # <<>> THEN [w1 EXCEPT !.c[x.c].rst = TRUE] ELSE w1
Close(w, i) ==
  LET x == w.h[i]
      w1 == CASE x.k = "str" -> CloseS(w, i)
              [] x.k = "tcp" -> [w EXCEPT !.c = [n \in DOMAIN w.c |-> IF \E k \in DOMAIN x.pend : x.pend[k] = n THEN [w.c[n] EXCEPT !.rst = TRUE, !.gone = <<TRUE, @[2]>>] ELSE w.c[n]]]
              [] OTHER -> w
  IN << x.k # "no", With(w1, i, None) >>
\* ---- whole transfers: n bytes written by one thread and read by another until all have come; a receiver woken by the bytes it waits for
Idle(w, i, j) == w.h[i].k = "str" /\ w.h[j].k = "str" /\ w.h[i].c = w.h[j].c /\ LET c == w.c[w.h[i].c] IN ~c.rst /\ c.q = <<<<>>, <<>>>> /\ c.gone = <<FALSE, FALSE>>
Bulk(w, i, j, n, sent, got, same) == << Idle(w, i, j) /\ sent = n /\ got = n /\ same, w >>
Wake(w, i, j, d, r, e) == << Idle(w, i, j) /\ r = Len(d) /\ e = d, w >>
=============================================================================

----------------------------- MODULE MCSockets -----------------------------
(* Two listeners' worth of connections and two datagram sockets: every short history; nothing is lost, duplicated or reordered. *)
EXTENDS Sockets, Json
CONSTANTS Kind, MaxOps, Emit
VARIABLES w, hist, n, snt, got   \* snt[c][s], got[c][s]: bytes sent to / taken by side s of connection c
vars == <<w, hist, n, snt, got>>
Init == w = World0 /\ hist = <<>> /\ n = 0 /\ snt = <<>> /\ got = <<>>
Log(o) == hist' = Append(hist, o) /\ n' = n + 1 /\ (Emit /\ Len(hist') = MaxOps => PrintT(<<"VP-HIST", ToJson(hist')>>))
Take(o) == o[1] /\ w' = o[2]
NoS == UNCHANGED <<snt, got>>
D(k) == [i \in 1..k |-> 10 * n + i]
Tcp ==
  \/ w.h[0].k = "no" /\ Take(Create(w, 0, "tcp", "bind", TRUE, 0, TRUE, 1)) /\ Log(<<"bind", "tcp", 0, 0>>) /\ NoS
  \/ w.h[0].k = "tcp" /\ ~w.h[0].lis /\ Take(Listen(w, 0, 4, 0)) /\ Log(<<"listen", 0>>) /\ NoS
  \/ w.h[0].k = "tcp" /\ w.h[9].k = "no" /\ Take(Create(w, 9, "tcp", "bind", FALSE, 1, FALSE, 0)) /\ n = 1 /\ Log(<<"bind", "tcp", 9, 0>>) /\ NoS
  \/ \E i \in {1, 2} : w.h[i].k = "no" /\ Len(w.c) < 2 /\ LET up == w.h[0].k = "tcp" /\ w.h[0].lis IN w.h[0].k = "tcp" /\ Take(Create(w, i, "tcp", "connect", FALSE, 1, up, 10 + i)) /\ Log(<<"connect", "tcp", i, 0>>) /\ IF up THEN snt' = Append(snt, <<<<>>, <<>>>>) /\ got' = Append(got, <<<<>>, <<>>>>) ELSE NoS
  \/ \E j \in {3, 4} : w.h[j].k = "no" /\ (j = 3 \/ w.h[3].k # "no") /\ w.h[0].k = "tcp" /\ LET ok == w.h[0].pend # <<>> IN Take(Accept(w, 0, j, ok, IF ok THEN w.c[Head(w.h[0].pend)].pt[2] ELSE -1)) /\ Log(<<"accept", 0, j>>) /\ NoS
  \/ \E i \in 1..4 : w.h[i].k = "str" /\ LET x == w.h[i] c == x.c IN
       \/ \E k \in {1, 3} : ~w.c[c].rst /\ ~w.c[c].gone[You(x)] /\ Len(w.c[c].q[You(x)]) < 4 /\ Take(Send(w, i, D(k), k)) /\ Log(<<"send", i>> \o D(k)) /\ snt' = [snt EXCEPT ![c][You(x)] = @ \o D(k)] /\ UNCHANGED got
       \/ \E k \in {2, 9} : ~w.c[c].rst /\ Ready(w, i) /\ LET q == w.c[c].q[Me(x)] d == Front(q, k) IN Take(Recv(w, i, k, Len(d), d)) /\ Log(<<"recv", i, k>>) /\ got' = [got EXCEPT ![c][Me(x)] = @ \o d] /\ UNCHANGED snt
  \/ \E i \in 0..4 : w.h[i].k # "no" /\ Take(Close(w, i)) /\ Log(<<"close", i>>) /\ NoS
Udp ==
  \/ \E i \in {0, 1} : w.h[i].k = "no" /\ n < 4 /\ Take(Create(w, i, "udp", "bind", TRUE, 0, TRUE, 20 + 3 * i + (n % 3))) /\ Log(<<"bind", "udp", i, 0>>) /\ NoS
  \/ w.h[2].k = "no" /\ w.h[0].k = "udp" /\ n < 5 /\ Take(Create(w, 2, "udp", "connect", TRUE, w.h[0].port, TRUE, 40)) /\ Log(<<"connect", "udp", 2, 0>>) /\ NoS
  \/ \E i, j \in {0, 1, 2}, k \in {0, 2} : i # j /\ w.h[i].k = "udp" /\ w.h[j].k = "udp" /\ i # 2 /\ Len(w.h[j].q) < 2 /\ Take(SendU(w, i, w.h[j].port, D(k), k)) /\ Log(<<"sendto", i, j>> \o D(k)) /\ NoS
  \/ w.h[2].k = "udp" /\ Bound(w, "udp", w.h[2].peer) # {} /\ Take(Send(w, 2, D(3), 3)) /\ Log(<<"send", 2>> \o D(3)) /\ NoS
  \/ \E i \in {0, 1, 2}, k \in {1, 9} : w.h[i].k = "udp" /\ w.h[i].q # <<>> /\ LET m == Head(w.h[i].q) IN Take(RecvU(w, i, k, MinOf(k, Len(m[1])), Front(m[1], k), m[2])) /\ Log(<<"recvfrom", i, k>>) /\ NoS
  \/ \E i \in {0, 1, 2} : w.h[i].k # "no" /\ Take(Close(w, i)) /\ Log(<<"close", i>>) /\ NoS
Next == n < MaxOps /\ (IF Kind = "tcp" THEN Tcp ELSE Udp)
Spec == Init /\ [][Next]_vars
\* what was sent is what was taken followed by what is under way
Faithful == \A c \in DOMAIN w.c : ~w.c[c].rst => \A s \in 1..2 : snt[c][s] = got[c][s] \o w.c[c].q[s]
\* two handles never are the same end, and a pending connection has no server handle yet
Apart == \A i, j \in Open(w) : i # j /\ w.h[i].k = "str" /\ w.h[j].k = "str" => <<w.h[i].c, w.h[i].side>> # <<w.h[j].c, w.h[j].side>>
Ports == \A i, j \in Open(w) : i # j /\ w.h[i].k = w.h[j].k /\ w.h[i].k \in {"tcp", "udp"} => w.h[i].port # w.h[j].port
\* a closed sender's bytes stay readable, then the end is reported and nothing else is possible
Orderly == \A i \in Open(w) : w.h[i].k = "str" /\ ~w.c[w.h[i].c].rst /\ w.c[w.h[i].c].gone[You(w.h[i])] =>
             LET q == w.c[w.h[i].c].q[Me(w.h[i])] IN Recv(w, i, 9, 0, <<>>)[1] = (q = <<>>) /\ ~Recv(w, i, 9, -1, <<>>)[1]
=============================================================================

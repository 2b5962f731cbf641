-------------------------------- MODULE List --------------------------------
(* Linked list nodes: ch maps the head node of every chain to the sequence of its nodes. Nodes are numbers. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLE ch          \* a set of chains (non-empty sequences)
SeqSet(s) == {s[i] : i \in 1..Len(s)}
Used == UNION {SeqSet(c) : c \in ch}
Of(n) == CHOOSE c \in ch : n \in SeqSet(c)
Pos(c, n) == CHOOSE i \in 1..Len(c) : c[i] = n
LInit(n) == n \notin Used /\ ch' = ch \cup {<<n>>}
LAdd(a, b) == /\ a \in Used /\ b \notin Used
              /\ LET c == Of(a) i == Pos(c, a) IN ch' = (ch \ {c}) \cup {SubSeq(c, 1, i) \o <<b>> \o SubSeq(c, i + 1, Len(c))}
Nxt(C, n) == LET c == CHOOSE x \in C : n \in SeqSet(x) i == Pos(c, n) IN IF i = Len(c) THEN -1 ELSE c[i + 1]
Prv(C, n) == LET c == CHOOSE x \in C : n \in SeqSet(x) i == Pos(c, n) IN IF i = 1 THEN -1 ELSE c[i - 1]
LRemove(n, ret) == /\ n \in Used /\ ret = Nxt(ch, n)
                   /\ LET c == Of(n) i == Pos(c, n) d == SubSeq(c, 1, i - 1) \o SubSeq(c, i + 1, Len(c))
                      IN ch' = (ch \ {c}) \cup (IF d = <<>> THEN {} ELSE {d})
Disjoint == \A c, d \in ch : c # d => SeqSet(c) \cap SeqSet(d) = {}
NoDup == \A c \in ch : Cardinality(SeqSet(c)) = Len(c)
=============================================================================

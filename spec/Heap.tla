-------------------------------- MODULE Heap --------------------------------
(* The heap: a set of live blocks and, with analysis on, the totals reported for them.        *)
(* Addresses are four 16-bit limbs, least significant first.                                   *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLE h     \* [live : set of [id, addr, size, al]]

Less(a, b) == IF a[4] # b[4] THEN a[4] < b[4] ELSE IF a[3] # b[3] THEN a[3] < b[3] ELSE IF a[2] # b[2] THEN a[2] < b[2] ELSE a[1] < b[1]
Plus(a, n) == LET s1 == a[1] + (n % 65536)   s2 == a[2] + (n \div 65536) + (s1 \div 65536)   s3 == a[3] + (s2 \div 65536) IN
              <<s1 % 65536, s2 % 65536, s3 % 65536, a[4] + (s3 \div 65536)>>
Apart(a, n, b, m) == ~Less(b, Plus(a, n)) \/ ~Less(a, Plus(b, m))
RECURSIVE SumSize(_)
SumSize(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN x.size + SumSize(S \ {x})
Used == SumSize(h.live)
Count == Cardinality(h.live)

Fresh(id, addr, size, al) ==
    /\ addr[1] % al = 0
    /\ \A b \in h.live : Apart(addr, size, b.addr, b.size)
Alloc(id, addr, size, al) == Fresh(id, addr, size, al) /\ h' = [live |-> h.live \cup {[id |-> id, addr |-> addr, size |-> size, al |-> al]}]
B(id) == CHOOSE b \in h.live : b.id = id
Has(id) == \E b \in h.live : b.id = id
Free(id) == Has(id) /\ h' = [live |-> h.live \ {B(id)}]
ResizeSame(id, size) == Has(id) /\ size > 0 /\ size <= B(id).size /\ UNCHANGED h
ResizeMove(id, addr, size, al) ==
    /\ Has(id) /\ size > B(id).size /\ addr[1] % al = 0
    /\ \A b \in h.live : b.id # id => Apart(addr, size, b.addr, b.size)
    /\ h' = [live |-> (h.live \ {B(id)}) \cup {[id |-> id, addr |-> addr, size |-> size, al |-> al]}]
HeapOK == \A b, c \in h.live : b # c => Apart(b.addr, b.size, c.addr, c.size)
=============================================================================

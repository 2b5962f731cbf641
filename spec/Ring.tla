-------------------------------- MODULE Ring --------------------------------
(* Bounded FIFO that drops the oldest element when it is full. *)
EXTENDS Integers, Sequences
VARIABLES q, cap
Last(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
Min(x, y) == IF x < y THEN x ELSE y
RInit(n) == q' = <<>> /\ cap' = n
RAppend(x) == q' = Last(Append(q, x), cap) /\ UNCHANGED cap
RAppendV(xs) == q' = Last(q \o xs, cap) /\ UNCHANGED cap
RGet(some, x) == /\ some = (q # <<>>) /\ UNCHANGED cap
                 /\ IF some THEN x = Head(q) /\ q' = Tail(q) ELSE q' = q
RGetV(n, xs) == /\ xs = SubSeq(q, 1, Min(n, Len(q))) /\ q' = SubSeq(q, Len(xs) + 1, Len(q)) /\ UNCHANGED cap
RFull == Len(q) = cap
REmpty == q = <<>>
RingOK == Len(q) <= cap
=============================================================================

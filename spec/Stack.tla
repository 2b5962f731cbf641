------------------------------- MODULE Stack -------------------------------
(* Growable LIFO allocator.  st = [base : address modulo 4096, total, top, blk : sequence of  *)
(* [off, size, prev]] -- prev is the fill level before the block was taken.                   *)
EXTENDS Integers, Sequences
VARIABLE st
Hdr == 8
Up(x, al) == ((x + al - 1) \div al) * al
New(base, total) == [base |-> base, total |-> total, top |-> 0, blk |-> <<>>]
\* base2/total2: where the region is afterwards (it may have been moved and enlarged, never shrunk)
Alloc(size, al, off, base2, total2, top2, grows) ==
    /\ total2 >= st.total
    /\ ~grows => base2 = st.base /\ total2 = st.total
    /\ off >= st.top
    /\ (base2 + off) % al = 0
    /\ off + size <= top2
    /\ top2 <= total2
    /\ top2 <= st.top + Hdr + 2 * al + size          \* bounded waste
    /\ st' = [base |-> base2, total |-> total2, top |-> top2, blk |-> Append(st.blk, [off |-> off, size |-> size, prev |-> st.top])]
\* growth is needed only when the block does not fit in front of the end
NeedsGrowth(size, al) == st.top + Hdr + al + size > st.total
Free == /\ st.blk # <<>>
        /\ st' = [st EXCEPT !.top = st.blk[Len(st.blk)].prev, !.blk = SubSeq(@, 1, Len(@) - 1)]
FreeAll == st' = [st EXCEPT !.top = 0, !.blk = <<>>]
StackOK == /\ st.top <= st.total
           /\ \A i \in 1..Len(st.blk) : st.blk[i].off >= st.blk[i].prev /\ st.blk[i].off + st.blk[i].size <= st.top
           /\ \A i \in 1..Len(st.blk) - 1 : st.blk[i].off + st.blk[i].size <= st.blk[i + 1].prev
=============================================================================

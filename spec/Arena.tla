------------------------------- MODULE Arena -------------------------------
(* Bump arenas: a fixed region, a fill level, snapshots, arenas inside arenas.              *)
(* ar[a] = [base  : address of the region modulo 4096 (alignment only),                     *)
(*          cap   : size of the region,                                                     *)
(*          used  : fill level (offset of the first byte not handed out),                   *)
(*          live  : set of [off, size, al] blocks handed out and not given back,             *)
(*          snaps : stack of [used, live] at the open snapshots]                             *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLE ar

Up(x, al) == ((x + al - 1) \div al) * al
Pad(A, al) == Up(A.base + A.used, al) - (A.base + A.used)

NewArena(base, cap) == [base |-> base, cap |-> cap, used |-> 0, live |-> {}, snaps |-> <<>>]

\* the request surely fits / surely does not fit
MustFit(A, size, al)  == A.used + Pad(A, al) + Up(size, al) <= A.cap
CanFit(A, size, al)   == A.used + Pad(A, al) + size <= A.cap

Placed(A, size, al, off, used2) ==
    /\ off >= A.used
    /\ (A.base + off) % al = 0
    /\ off + size <= A.cap
    /\ used2 >= off + size
    /\ used2 <= A.cap
    /\ used2 <= A.used + Pad(A, al) + Up(size, al)      \* waste is bounded by the alignment

Alloc(a, size, al, off, used2) ==
    /\ Placed(ar[a], size, al, off, used2)
    /\ ar' = [ar EXCEPT ![a].used = used2, ![a].live = @ \cup {[off |-> off, size |-> size, al |-> al]}]

AllocNull(a, size, al) == ~MustFit(ar[a], size, al) /\ UNCHANGED ar

\* resize: shrinking keeps the block; growing moves the contents to a new block; the old one stays consumed
ResizeSame(a, blk, new) == blk \in ar[a].live /\ new <= blk.size /\ new > 0 /\ UNCHANGED ar
ResizeZero(a, blk) == blk \in ar[a].live /\ UNCHANGED ar
ResizeMove(a, blk, new, al, off, used2) == blk \in ar[a].live /\ new > blk.size /\ Alloc(a, new, al, off, used2)
ResizeNull(a, blk, new, al) == blk \in ar[a].live /\ new > blk.size /\ AllocNull(a, new, al)

SnapBegin(a) == ar' = [ar EXCEPT ![a].snaps = Append(@, [used |-> ar[a].used, live |-> ar[a].live])]
SnapEnd(a) ==
    /\ ar[a].snaps # <<>>
    /\ LET s == ar[a].snaps[Len(ar[a].snaps)] IN
         ar' = [ar EXCEPT ![a].used = s.used, ![a].live = s.live, ![a].snaps = SubSeq(@, 1, Len(@) - 1)]

FreeAll(a) == ar[a].snaps = <<>> /\ ar' = [ar EXCEPT ![a].used = 0, ![a].live = {}]

\* ------------------------------------------------------------- the property
Overlap(b, c) == b.off < c.off + c.size /\ c.off < b.off + b.size
Good(A) ==
    /\ \A b \in A.live : b.off >= 0 /\ b.off + b.size <= A.cap /\ (A.base + b.off) % b.al = 0
    /\ \A b, c \in A.live : b # c => ~Overlap(b, c)
    /\ A.used >= 0 /\ A.used <= A.cap
    /\ \A b \in A.live : b.off + b.size <= A.used
    /\ \A i \in 1..Len(A.snaps) : A.snaps[i].used <= A.used /\ A.snaps[i].live \subseteq A.live
ArenaOK == \A a \in DOMAIN ar : Good(ar[a])
=============================================================================

-------------------------------- MODULE Pool --------------------------------
(* Fixed-size block pool: N blocks of bs bytes, alignment al, inside a region of mem bytes. *)
EXTENDS Integers, FiniteSets
VARIABLE p    \* [base, mem, n, bs, al, live : set of offsets, used]

New(base, mem, n, bs, al) == [base |-> base, mem |-> mem, n |-> n, bs |-> bs, al |-> al, live |-> {}, used |-> 0]
Fits(P, off) == /\ off >= 0 /\ off + P.bs <= P.mem
                /\ (P.base + off) % P.al = 0
                /\ \A o \in P.live : off + P.bs <= o \/ o + P.bs <= off
Alloc(off) == /\ Cardinality(p.live) < p.n
              /\ Fits(p, off)
              /\ p' = [p EXCEPT !.live = @ \cup {off}, !.used = @ + p.bs]
Free(off) == /\ off \in p.live
             /\ p' = [p EXCEPT !.live = @ \ {off}, !.used = @ - p.bs]
FreeAll == p' = [p EXCEPT !.live = {}, !.used = 0]

PoolOK == /\ Cardinality(p.live) <= p.n
          /\ p.used = p.bs * Cardinality(p.live)
          /\ \A o \in p.live : Fits([p EXCEPT !.live = p.live \ {o}], o)
=============================================================================

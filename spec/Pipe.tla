-------------------------------- MODULE Pipe --------------------------------
(* A pipe between two files (or between the standard output of one side and the standard input of the other): a queue of bytes,
   bounded, that neither loses, repeats nor reorders.  pp = [on, q : bytes under way, open : the writing end is open] *)
EXTENDS Integers, Sequences
VARIABLE pp
PCap == 4096
NoPipe == [on |-> FALSE, q |-> <<>>, open |-> FALSE]
PNew == pp' = [on |-> TRUE, q |-> <<>>, open |-> TRUE]
\* n bytes of d are taken; all of them when the pipe is empty, and ok exactly then
PWrite(d, ok, n) == /\ pp.on /\ pp.open /\ n \in 0..Len(d) /\ ok = (n = Len(d)) /\ Len(pp.q) + n <= PCap
                    /\ (pp.q = <<>> /\ Len(d) <= PCap => ok)
                    /\ pp' = [pp EXCEPT !.q = @ \o SubSeq(d, 1, n)]
\* what is there, up to n bytes; nothing, and no failure, at the end; a failure when there is nothing yet
PRead(n, ok, got) == LET k == IF n < Len(pp.q) THEN n ELSE Len(pp.q) IN
                     /\ pp.on /\ got = SubSeq(pp.q, 1, k)
                     /\ (n > 0 => ok = (k > 0 \/ ~pp.open))
                     /\ pp' = [pp EXCEPT !.q = SubSeq(@, k + 1, Len(@))]
PClose == pp.on /\ pp.open /\ pp' = [pp EXCEPT !.open = FALSE]
PipeOK == Len(pp.q) <= PCap
=============================================================================

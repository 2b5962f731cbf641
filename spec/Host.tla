-------------------------------- MODULE Host --------------------------------
(* What a program gets from its surroundings: environment variables, the output of commands, and libraries loaded while it runs.                                  *)
EXTENDS Integers, Sequences
Range(f) == {f[x] : x \in DOMAIN f}
\* --- the environment: a finite map; a name is not empty and holds no equals sign
None == [on |-> FALSE, v |-> <<>>]
Equals == 61
GoodName(n) == n # <<>> /\ Equals \notin Range(n)
Lookup(env, n) == IF n \in DOMAIN env THEN [on |-> TRUE, v |-> env[n]] ELSE None
Set(env, n, v) == IF GoodName(n) THEN [x \in DOMAIN env \union {n} |-> IF x = n THEN v ELSE env[x]] ELSE env
Unset(env, n) == [x \in DOMAIN env \ {n} |-> env[x]]
\* --- commands: the first bytes of what is written, into a buffer of so many bytes
Min(a, b) == IF a < b THEN a ELSE b
Into(buffer, out) == [k \in 1..Len(buffer) |-> IF k <= Len(out) THEN out[k] ELSE buffer[k]]
\* --- libraries: loaded once however often it is asked for, with the state it has kept until the last handle is given back
Lib0 == [refs |-> 0, count |-> 0]
Load(b) == [b EXCEPT !.refs = @ + 1]
Call(b, step) == [b EXCEPT !.count = @ + step]
Unload(b) == IF b.refs = 1 THEN Lib0 ELSE [b EXCEPT !.refs = @ - 1]
=============================================================================

------------------------------- MODULE MCHost -------------------------------
(* The environment the way the system keeps it: a row of NAME=VALUE texts that is searched from the front; and copies of values that live on their own. Loaded      *)
(* libraries the way the loader keeps them: an image per load, found again while it is there.                                                                      *)
EXTENDS Host, TLC, Json
CONSTANTS Depth
VARIABLES env, row, copies, seen, lib, img, hist
\* row: the texts <<name, value>>; copies: what was handed out; seen: what it was then; img[i]: <<refs, count>> of the image, or <<>>
vars == <<env, row, copies, seen, lib, img, hist>>
Names == {<<65>>, <<65, 66>>, <<>>, <<65, 61>>}
Values == {<<>>, <<120>>, <<61, 65>>}
Two == {0, 1}
Log(o) == hist' = Append(hist, o)
Others(n) == SelectSeq(row, LAMBDA p : p[1] # n)
SetR(n, v) == IF n = <<>> \/ \E k \in 1..Len(n) : n[k] = 61 THEN row
              ELSE IF \E k \in 1..Len(row) : row[k][1] = n THEN [k \in 1..Len(row) |-> IF row[k][1] = n THEN <<n, v>> ELSE row[k]] ELSE Append(row, <<n, v>>)
GetR(n) == LET at == {k \in 1..Len(row) : row[k][1] = n} IN IF at = {} THEN None ELSE [on |-> TRUE, v |-> row[CHOOSE k \in at : TRUE][2]]
Init == env = [x \in {} |-> <<>>] /\ row = <<>> /\ copies = <<>> /\ seen = <<>> /\ lib = [i \in Two |-> Lib0] /\ img = [i \in Two |-> <<>>] /\ hist = <<>>
Env == /\ UNCHANGED <<lib, img>>
       /\ \/ \E n \in Names, v \in Values : env' = Set(env, n, v) /\ row' = SetR(n, v) /\ UNCHANGED <<copies, seen>> /\ Log(<<"set", n, v>>)
          \/ \E n \in Names : env' = Unset(env, n) /\ row' = Others(n) /\ UNCHANGED <<copies, seen>> /\ Log(<<"unset", n>>)
          \/ \E n \in {x \in Names : Equals \notin Range(x)} : copies' = Append(copies, GetR(n)) /\ seen' = Append(seen, Lookup(env, n)) /\ UNCHANGED <<env, row>> /\ Log(<<"get", n>>)
Libs == /\ UNCHANGED <<env, row, copies, seen>>
        /\ \E i \in Two : \/ lib' = [lib EXCEPT ![i] = Load(@)] /\ img' = [img EXCEPT ![i] = IF @ = <<>> THEN <<1, 0>> ELSE <<@[1] + 1, @[2]>>] /\ Log(<<"load", i>>)
                          \/ lib[i].refs > 0 /\ lib' = [lib EXCEPT ![i] = Call(@, i + 1)] /\ img' = [img EXCEPT ![i][2] = @ + i + 1] /\ Log(<<"call", i>>)
                          \/ lib[i].refs > 0 /\ lib' = [lib EXCEPT ![i] = Unload(@)] /\ img' = [img EXCEPT ![i] = IF @[1] = 1 THEN <<>> ELSE <<@[1] - 1, @[2]>>] /\ Log(<<"unload", i>>)
NextE == Len(hist) < Depth /\ Env
NextL == Len(hist) < Depth /\ Libs
SpecE == Init /\ [][NextE]_vars
SpecL == Init /\ [][NextL]_vars
Agree == /\ \A n \in Names : GetR(n) = Lookup(env, n)
         /\ \A n \in DOMAIN env : GoodName(n)
         /\ copies = seen
         /\ \A i \in Two : (img[i] = <<>> <=> lib[i].refs = 0) /\ (img[i] # <<>> => img[i] = <<lib[i].refs, lib[i].count>>)
View == <<env, row, copies, lib, img, Len(hist)>>
Emit == Len(hist') = Depth => PrintT(<<"VP-HIST", ToJson(hist')>>)
=============================================================================
